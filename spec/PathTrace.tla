------------------------------ MODULE PathTrace ------------------------------
(* Validates smoothing and simplification of paths by the real code.           *)
EXTENDS Geo, TraceLib
VARIABLE l
S == INSTANCE Smooth WITH N <- 0, Grid <- {}, Eps <- 0, path <- <<>>, kept <- {}, todo <- {}
E == Trace[l]

(* idx: which points of p the result consists of (found by the recorder, -1: no such one) *)
Ascending(idx) == \A i \in 1..Len(idx) - 1 : idx[i] < idx[i + 1]
Result(p, idx) == [i \in 1..Len(idx) |-> p[idx[i]]]
OnlyDropped(p, out, idx) == Len(out) = Len(idx) /\ (\A i \in 1..Len(idx) : idx[i] >= 1) /\ Ascending(idx) /\ Result(p, idx) = out

(* exact if the numbers are small, else up to one micrometre                              *)
Off(a, b, q, eps) ==
    IF E.small THEN ~S!Near(a, b, q, eps)
    ELSE IF a = b \/ Dot(a, b, q) <= 0 THEN Len2(a, q) >= eps + 2 * ISqrt(eps) + 1
    ELSE IF Dot(a, b, q) >= Len2(a, b) THEN Len2(b, q) >= eps + 2 * ISqrt(eps) + 1
    ELSE Abs(Cross(a, b, q)) > (ISqrt(eps) + 1) * (ISqrt(Len2(a, b)) + 1)
Smoothed ==
    /\ E.ev = "smooth"
    /\ Check(E.p = E.p2, "C21", E, l, "smoothing changes its argument", [p |-> Cut(E.p, 12), after |-> Cut(E.p2, 12)])
    /\ IF Len(E.p) = 0 THEN Check(Len(E.out) = 0, "C21", E, l, "smoothing nothing gives something", 0)
       ELSE IF ~OnlyDropped(E.p, E.out, E.idx) THEN Viol("C21", E, l, "smoothing does not just drop points", [p |-> Cut(E.p, 12), out |-> Cut(E.out, 12), idx |-> Cut(E.idx, 12)])
       ELSE /\ Check(E.idx[1] = 1 /\ E.idx[Len(E.idx)] = Len(E.p), "C21", E, l, "smoothing does not keep the end points", [n |-> Len(E.p), idx |-> Cut(E.idx, 12)])
            /\ \A i \in 1..Len(E.idx) - 1 : \A k \in E.idx[i] + 1..E.idx[i + 1] - 1 :
                 Check(~Off(E.p[E.idx[i]], E.p[E.idx[i + 1]], E.p[k], E.eps), "C21", E, l, "a dropped point is too far from the line which replaces it",
                       [from |-> E.p[E.idx[i]], to |-> E.p[E.idx[i + 1]], point |-> E.p[k], eps |-> E.eps])
Simplified ==
    /\ E.ev = "simplify"
    /\ Check(E.p = E.p2, "C21", E, l, "simplifying changes its argument", [p |-> Cut(E.p, 12), after |-> Cut(E.p2, 12)])
    /\ IF Len(E.p) < 3 THEN Check(Len(E.out) = 0, "C21", E, l, "an outline of less than three points stays", 0)
       ELSE IF ~OnlyDropped(E.p, E.out, E.idx) THEN Viol("C21", E, l, "simplifying does not just drop points", [p |-> Cut(E.p, 12), out |-> Cut(E.out, 12), idx |-> Cut(E.idx, 12)])
       ELSE E.round => \A k \in 1..Len(E.p) :
              Check(Len(E.out) >= 3 /\ NearLoop(E.p[k], E.out, 6), "C21", E, l, "simplifying moves the outline", [point |-> E.p[k], out |-> Cut(E.out, 40)])
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Smoothed \/ Simplified \/ Crash)
TSpec == TInit /\ [][TNext]_l
=============================================================================
