------------------------------ MODULE RerunTrace ------------------------------
(* Results of real runs: the same model and options always give the same.      *)
EXTENDS TraceLib
VARIABLES l, known
E == Trace[l]
Fresh == l = 1 \/ Trace[l - 1].case # E.case
Known == IF Fresh THEN <<>> ELSE known
Run == /\ E.ev = "run"
       /\ LET k == {i \in 1..Len(Known) : Known[i].key = E.key} IN
          /\ \A i \in k : Check(Known[i].hash = E.hash, "C23", E, l, "the same model and options give another result", [key |-> E.key, hash |-> E.hash, how |-> E.how, msg |-> E.msg, before |-> Known[i]])
          /\ known' = IF k = {} THEN Append(Known, [key |-> E.key, hash |-> E.hash, how |-> E.how, msg |-> E.msg]) ELSE Known
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack) /\ UNCHANGED known
TInit == l = 1 /\ known = <<>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Run \/ Crash)
TSpec == TInit /\ [][TNext]_<<l, known>>
===============================================================================
