------------------------------- MODULE FillGen -------------------------------
(* Prints connected areas of cells as test cases.                              *)
EXTENDS Fill, Json
RECURSIVE Reach(_, _)
Reach(s, a) == LET n == {c \in a : \E d \in s : Abs(c[1] - d[1]) + Abs(c[2] - d[2]) = 1} \cup s
               IN IF n = s THEN s ELSE Reach(n, a)
Connected4(a) == a # {} /\ Reach({CHOOSE c \in a : TRUE}, a) = a
ASSUME \A a \in SUBSET Grid : Connected4(a) => PrintT("CASE " \o ToJson([cells |-> a]))
GInit == area = {} /\ left = {} /\ done = <<>> /\ side = 0
GNext == UNCHANGED vars
=============================================================================
