------------------------------ MODULE SmoothGen ------------------------------
(* Prints paths as test cases.                                                  *)
EXTENDS SmoothMC, Json
ASSUME \A p \in [1..N -> Grid] : p[1] = <<0, 0>> => PrintT("CASE " \o ToJson([kind |-> "path", p |-> p]))
GInit == path = <<>> /\ kept = {} /\ todo = {}
GNext == UNCHANGED vars
=============================================================================
