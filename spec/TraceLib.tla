------------------------------ MODULE TraceLib ------------------------------
(* What all trace specifications share: the recorded trace and the way a     *)
(* disagreement between the trace and the specification is reported.         *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r

Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

(* A disagreement does not stop the validation: it is printed (the driver    *)
(* collects these lines) and the rest of the trace is checked as well.       *)
Viol(prop, e, line, why, info) ==
    PrintT("VIOL " \o ToJson([prop |-> prop, case |-> e.case, line |-> line, why |-> why, info |-> info]))

(* The same for something which is listed in known-findings.txt under a key.  *)
ViolK(prop, key, e, line, why, info) ==
    PrintT("VIOL " \o ToJson([prop |-> prop, key |-> key, case |-> e.case, line |-> line, why |-> why, info |-> info]))

(* Check(ok, ...) is always TRUE, it reports if ok does not hold.            *)
Check(ok, prop, e, line, why, info) == IF ok THEN TRUE ELSE Viol(prop, e, line, why, info)

AllConsumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
