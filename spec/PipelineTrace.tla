--------------------------- MODULE PipelineTrace ---------------------------
(* Validates recorded runs of the real Process against Pipeline.            *)
EXTENDS Pipeline, TraceLib

VARIABLES l, bad
tvars == <<cfg, pc, cur, mi, md, gi, err, files, l, bad>>

TInit == Init /\ l = 1 /\ bad = FALSE

E == Trace[l]
Is(ev) == E.ev = ev

Obs(s) == {s[i] : i \in 1..Len(s)}

(* The recorded step, as an action of the specification.                    *)
Step ==
    \/ Is("begin") /\ Begin(E.cfg)
    \/ Is("read") /\ Read(E.arg, E.res)
    \/ Is("optimize") /\ Optimize(E.arg, E.res)
    \/ Is("slice") /\ Slice(E.arg, E.res)
    \/ Is("minit") /\ MInit(E.i, E.arg)
    \/ Is("modify") /\ Modify(E.i, E.arg, E.res)
    \/ Is("ginit") /\ GInit(E.arg)
    \/ Is("generate") /\ Generate(E.arg, E.res)
    \/ Is("write") /\ Write(E.arg, E.dest, E.res) /\ (E.res = WRes)
    \/ Is("end") /\ End /\ E.err = (IF err = "write" /\ cfg.fail # "write" THEN "other" ELSE err) /\ Obs(E.files) = files
    \* a model without faces is refused, there is nothing to observe but the end
    \/ Is("end") /\ pc = "read" /\ cfg.faces = 0 /\ E.err = "other" /\ Obs(E.files) = files
       /\ pc' = "idle" /\ cfg' = NoCfg /\ UNCHANGED <<cur, mi, md, gi, err, files>>

Reset == /\ pc' = "idle" /\ cfg' = NoCfg /\ UNCHANGED <<cur, mi, md, gi, err, files>>

Good == ~bad /\ Step /\ bad' = FALSE
Wrong == /\ ~bad /\ ~ENABLED Step
         /\ Viol(IF Is("crash") THEN "crash" ELSE "C01", E, l, "not a step of the specification",
                 [event |-> E, cfg |-> cfg, pc |-> pc, cur |-> cur, md |-> md, mi |-> mi, err |-> err, files |-> files])
         /\ bad' = (~Is("end") /\ ~Is("crash"))
         /\ Reset
Skip == /\ bad
        /\ bad' = (~Is("end") /\ ~Is("crash"))
        /\ Reset

TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Good \/ Wrong \/ Skip)
TSpec == TInit /\ [][TNext]_tvars
============================================================================
