------------------------------- MODULE ClipGen -------------------------------
(* Prints pairs of lists of shapes as test cases.                               *)
EXTENDS ClipMC, Json
List(set, n) == UNION {[1..k -> set] : k \in 0..n}
J(s) == [out |-> s.out, holes |-> s.holes]
ASSUME \A x \in List(All, MaxA), y \in List(All, MaxB) :
    PrintT("CASE " \o ToJson([kind |-> "cells", a |-> [i \in DOMAIN x |-> J(x[i])], b |-> [i \in DOMAIN y |-> J(y[i])]]))
GInit == Init
GNext == UNCHANGED vars
=============================================================================
