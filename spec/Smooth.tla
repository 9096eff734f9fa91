-------------------------------- MODULE Smooth --------------------------------
(* C21: smoothing of a path (data/2d.go).  An interval of the path is replaced  *)
(* by the straight line between its ends if no point of it is too far from that *)
(* line, else it is divided at the most distant point.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the squared distance of p to the segment a-b, rounded like the code does it   *)
D2(a, b, p) ==
    LET ab == <<b[1] - a[1], b[2] - a[2]>> ap == <<p[1] - a[1], p[2] - a[2]>>
        l2 == ab[1] * ab[1] + ab[2] * ab[2]
        d == ab[1] * ap[1] + ab[2] * ap[2]
        s2 == ap[1] * ap[1] + ap[2] * ap[2]
        bp == <<p[1] - b[1], p[2] - b[2]>>
        r == IF d <= 0 THEN s2 ELSE IF d >= l2 THEN bp[1] * bp[1] + bp[2] * bp[2] ELSE s2 - (d * d) \div l2
    IN IF r < 0 THEN 0 ELSE r
(* the exact condition: p is closer to the segment a-b than the root of eps      *)
Near(a, b, p, eps) ==
    LET ab == <<b[1] - a[1], b[2] - a[2]>> ap == <<p[1] - a[1], p[2] - a[2]>>
        l2 == ab[1] * ab[1] + ab[2] * ab[2]
        c == ab[1] * ap[2] - ab[2] * ap[1]
        d == ab[1] * ap[1] + ab[2] * ap[2]
        bp == <<p[1] - b[1], p[2] - b[2]>>
    IN IF d <= 0 THEN ap[1] * ap[1] + ap[2] * ap[2] < eps
       ELSE IF d >= l2 THEN bp[1] * bp[1] + bp[2] * bp[2] < eps ELSE c * c < eps * l2

CONSTANTS N, Grid, Eps
VARIABLES path, kept, todo
vars == <<path, kept, todo>>
Init == /\ path \in [1..N -> Grid]
        /\ kept = {1, N} /\ todo = {<<1, N>>}
Dist(i, k, j) == D2(path[i], path[j], path[k])
Step == \E iv \in todo :
    LET i == iv[1] j == iv[2]
        far == {k \in i..j : \A m \in i..j : Dist(i, k, j) >= Dist(i, m, j)}
    IN \E k \in far :
         IF j - i < 2 \/ Dist(i, k, j) < Eps
         THEN todo' = todo \ {iv} /\ UNCHANGED <<path, kept>>
         ELSE todo' = (todo \ {iv}) \cup {<<i, k>>, <<k, j>>} /\ kept' = kept \cup {k} /\ UNCHANGED path
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Below(k) == CHOOSE i \in kept : i < k /\ \A m \in kept : m < k => m <= i
Above(k) == CHOOSE i \in kept : i > k /\ \A m \in kept : m > k => m >= i
KeepsEnds == {1, N} \subseteq kept
WithinTolerance == todo = {} => \A k \in (1..N) \ kept : Near(path[Below(k)], path[Above(k)], path[k], Eps)
Progress == [][(kept' # kept \/ todo' # todo) /\ path' = path]_vars
Terminates == <>(todo = {})
(* an interval is never divided at one of its own ends                           *)
Proper == \A iv \in todo : iv[1] < iv[2]
=============================================================================
