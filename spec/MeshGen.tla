------------------------------- MODULE MeshGen -------------------------------
(* Prints meshes as test cases: every pair of faces over the points of the    *)
(* design model; the harness places and scales them.                          *)
EXTENDS MeshMC
CONSTANT Deep
P == <<<<0, 0, 0>>, <<1, 0, 0>>, <<9, 0, 0>>, <<0, 9, 0>>, <<0, 0, 9>>>>
F == {f \in (1..5) \X (1..5) \X (1..5) : TRUE}
First == {<<1, 3, 4>>, <<1, 2, 3>>, <<1, 1, 4>>}
Pr(fs) == PrintT("CASE " \o ToJson([faces |-> fs]))
ASSUME \A f \in First : \A g \in F : Pr(<<f, g>>)
(* third faces which share an edge with the first one                         *)
ASSUME \A g \in {<<1, 4, 5>>, <<4, 3, 1>>, <<2, 3, 4>>, <<3, 2, 5>>} : \A h \in F : Pr(<<<<1, 3, 4>>, g, h>>)
ASSUME Deep => \A g \in F, h \in {x \in F : x[1] < x[2]} : Pr(<<<<1, 3, 4>>, g, h, <<3, 5, 4>>>>)
GInit == Init
GNext == UNCHANGED vars
=============================================================================
