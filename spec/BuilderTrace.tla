---------------------------- MODULE BuilderTrace ----------------------------
(* Histories of operations on the real builder: every line of G-code is a     *)
(* step of the printer, every operation has to be complete when the next one  *)
(* begins.                                                                    *)
EXTENDS Printer, TraceLib
VARIABLES l,
          set,   \* the settings so far
          m, c,  \* printer, and what is wanted for the current operation
          op,    \* the current operation
          was,   \* the printer when the operation began
          said   \* lines of text of the operation
vars == <<l, set, m, c, op, was, said>>
E == Trace[l]
Nothing == [ev |-> "op", op |-> "none", case |-> -1, err |-> FALSE]

NewSet(d, mult) == [move |-> 0, print |-> 0, over |-> 0, rspeed |-> 0, rlen |-> 0, hop |-> 0, rate |-> 0, d |-> d, mult |-> mult]
Context(s, z, judged) ==
    [move |-> s.move, print |-> IF s.over > 0 THEN s.over ELSE s.print, rspeed |-> s.rspeed, rlen |-> s.rlen, hop |-> s.hop,
     z |-> z, rate |-> s.rate, judged |-> judged, must |-> s.rlen > 0 /\ s.rspeed > 0]

Say(bad) == \A v \in bad : Viol(v.prop, E, l, v.why, v.info)

(* ---- the operation is over: did it do what was asked for ---------------------*)
AllClose(s) == \A i \in 1..Len(s) : Close(s[i], s[1], 2 * PTol)
Finished(o) ==
    CASE o.op = "path" ->
           IF o.pts = <<>> THEN Check(m.p = was.p, "C20", o, l, "an empty path moves the nozzle", 0)
           ELSE /\ Check(m.ret = 0, "C16", o, l, "a retraction is not given back", m.ret)
                /\ Check(~Known(m.p) \/ Abs(m.p.z - o.z) <= HeightTol, "C20", o, l, "not at the height of the path", [z |-> o.z, got |-> m.p])
                /\ IF AllClose(o.pts) \/ c.rate = 0
                   THEN Check(Close(At(m.p), o.pts[1], 4 * PTol), "C20", o, l, "not at the place of the path", [pts |-> o.pts, got |-> m.p])
                   ELSE Check(VisitsPath(m.run, o.pts, ~o.open), "C20", o, l, "the path is not printed as asked for",
                              [asked |-> o.pts, open |-> o.open, printed |-> m.run])
      [] o.op = "go" ->
           /\ Check(Close(At(m.p), o.p, PTol) /\ Abs(m.p.z - o.z) <= HeightTol, "C20", o, l, "a move does not end where it should", [asked |-> o, got |-> m.p])
           /\ Check(Abs((m.p.e - was.p.e) - o.e) <= 2, "C15", o, l, "a move does not extrude what it should", [asked |-> o.e, got |-> m.p.e - was.p.e])
      [] o.op = "text" -> Check(said = <<o.s>>, "C20", o, l, "text is not stated as given", [asked |-> o.s, got |-> said])
      [] OTHER -> Check(m.p = was.p /\ said = <<>>, "C20", o, l, "a setting makes output", [p |-> m.p, said |-> said])
FinishedSum == Check(SumOK(m) \/ op.op = "go", "C15", op, l, "the filament of everything printed is not its volume", [e |-> m.p.e, ret |-> m.ret, base |-> m.base, sum |-> m.sum])

Begin == /\ E.ev = "begin"
         /\ (op.op # "none" => Finished(op) /\ FinishedSum)
         /\ set' = NewSet(E.d, E.mult) /\ m' = [Start EXCEPT !.p.e = 0] /\ was' = m' /\ c' = Context(set', 0, FALSE)
         /\ op' = Nothing /\ said' = <<>>
Op == /\ E.ev = "op"
      /\ (op.op # "none" => Finished(op) /\ FinishedSum)
      /\ Check(~E.err, "C20", E, l, "an operation fails", E)
      /\ set' = CASE E.op = "move" -> [set EXCEPT !.move = E.v]
                  [] E.op = "print" -> [set EXCEPT !.print = E.v]
                  [] E.op = "over" -> [set EXCEPT !.over = E.v]
                  [] E.op = "retr" -> [set EXCEPT !.rspeed = E.v, !.rlen = E.n, !.hop = E.hop]
                  [] E.op = "ext" -> [set EXCEPT !.rate = Rate(E.th, E.w, set.mult, set.d)]
                  [] OTHER -> set
      /\ c' = Context(set, IF E.op = "path" THEN E.z ELSE 0, E.op = "path" /\ Has(E, "judged") /\ E.judged)
      \* after a single move the filament is counted anew
      /\ m' = [m EXCEPT !.run = <<>>, !.moved = FALSE,
                        !.sum = IF op.op = "go" THEN 0 ELSE @, !.base = IF op.op = "go" THEN m.p.e + m.ret ELSE @]
      /\ was' = m' /\ op' = E /\ said' = <<>>
Move == /\ E.ev = "mv"
        /\ IF op.op = "go"
           THEN LET q == Exec(m.p, E)
                    want == IF op.v # 0 THEN op.v ELSE IF op.e # 0 THEN c.print ELSE c.move
                IN /\ m' = [m EXCEPT !.p = q]
                   /\ Check(q.f # Unknown /\ Same(q.f, want), "C17", E, l, "a move does not run at its speed", [want |-> want, got |-> q.f])
           ELSE LET r == Step(m, c, E) IN m' = r.m /\ Say(r.bad)
        /\ UNCHANGED <<set, c, op, was, said>>
Text == /\ E.ev \in {"cmt", "cmd", "raw"}
        /\ Check(op.op = "text", "C20", E, l, "output which was not asked for", E)
        /\ said' = Append(said, E.s)
        /\ UNCHANGED <<set, m, c, op, was>>
Arg == /\ E.ev = "arg"
       /\ Check(E.before = E.after, "C21", E, l, "printing a path changes it", E)
       /\ UNCHANGED <<set, m, c, op, was, said>>
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack) /\ UNCHANGED <<set, m, c, op, was, said>>

TInit == l = 1 /\ set = NewSet(1750, 100) /\ m = Start /\ was = Start /\ op = Nothing /\ said = <<>> /\ c = Context(NewSet(1750, 100), 0, FALSE)
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Op \/ Move \/ Text \/ Arg \/ Crash)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
