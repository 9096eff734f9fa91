----------------------------- MODULE OptionsTrace -----------------------------
(* Every text which is given to the real option types, and command lines.      *)
EXTENDS TraceLib, FiniteSets
O == INSTANCE Options
VARIABLE l
E == Trace[l]
\* a table is recorded as rows
Value(t, v) == IF t = "fan" THEN {v[i] : i \in 1..Len(v)} ELSE v
C(ok, why, info) == Check(ok, "C22", E, l, why, info)
Info == [t |-> E.t, text |-> E.text, err |-> E.err, val |-> E.val, again |-> E.again]
Set == /\ E.ev = "set"
       /\ LET p == O!Parse(E.t, E.text) v == Value(E.t, E.val) IN
          /\ C(p.k # "err" \/ E.err, "accepted although it is wrong", Info)
          /\ C(p.k \notin {"ok", "some"} \/ ~E.err, "rejected although it is right", Info)
          /\ C(p.k # "ok" \/ E.err \/ v = p.v, "not the value which was written", Info)
          /\ C(~E.err \/ E.t \notin O!Keeps \/ E.val = E.old, "rejected, but the value changes", Info)
          /\ C(E.err \/ p.k = "some" \/ (~E.again.err /\ (E.t = "mm" \/ Value(E.t, E.again.val) = v) /\ E.near), "printed and parsed again gives another value", Info)
Same(f, got, want) == IF O!Kind[f] = "fan" /\ want \notin {O!Err} THEN Value("fan", got) = want ELSE got = want
Start == [f \in O!Flags |-> Value(O!Kind[f], E.def[f])]
Line == /\ E.ev = "flags"
        /\ LET g == O!Given(Start, E.args) IN
           /\ C(~E.crash, "crashes", E.args)
           /\ C(DOMAIN E.def = O!Flags, "the options of the harness", 0)
           /\ C(g.k # "err" \/ E.code # 0, "a wrong command line is accepted", E.args)
           /\ C(g.k # "ok" \/ E.code = 0, "a right command line is rejected", E.args)
           /\ C(g.k # "ok" \/ E.code # 0 \/ \A f \in O!Flags : Value(O!Kind[f], E.got.opts[f]) = g.v[f], "an option does not have the value which was given (or its default)",
                IF g.k = "ok" /\ E.code = 0 THEN [args |-> E.args, wrong |-> {<<f, E.got.opts[f], g.v[f]>> : f \in {f \in O!Flags : Value(O!Kind[f], E.got.opts[f]) # g.v[f]}}] ELSE 0)
           /\ C(g.k # "ok" \/ E.code # 0 \/ (E.got.input = E.input /\ ~E.got.version), "not the model which was given", E.args)
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Set \/ Line \/ Crash)
TSpec == TInit /\ [][TNext]_l
===============================================================================
