--------------------------------- MODULE Geo ---------------------------------
(* Integer geometry shared by the trace specifications.  TLC integers have    *)
(* 32 bits: callers keep coordinates within 12.5 mm of the origin, or use a   *)
(* coarser unit.                                                              *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* floor of the square root, by bisection                                     *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(n, lo, hi) == IF lo >= hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2
                          IN IF m * m <= n THEN SqrtIn(n, m, hi) ELSE SqrtIn(n, lo, m - 1)
ISqrt(n) == SqrtIn(n, 0, 46340)

Len2(a, b) == (b[1] - a[1]) * (b[1] - a[1]) + (b[2] - a[2]) * (b[2] - a[2])
Cross(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
Dot(a, b, p) == (b[1] - a[1]) * (p[1] - a[1]) + (b[2] - a[2]) * (p[2] - a[2])

Close(a, b, t) == Abs(a[1] - b[1]) <= t /\ Abs(a[2] - b[2]) <= t

(* p is at most about t away from the segment a-b                             *)
NearSeg(p, a, b, t) ==
    /\ p[1] >= Min2(a[1], b[1]) - t /\ p[1] <= Max2(a[1], b[1]) + t
    /\ p[2] >= Min2(a[2], b[2]) - t /\ p[2] <= Max2(a[2], b[2]) + t
    /\ \/ Close(p, a, t) \/ Close(p, b, t)
       \/ Abs(Cross(a, b, p)) <= t * (ISqrt(Len2(a, b)) + 1)

Nxt(i, n) == IF i = n THEN 1 ELSE i + 1
(* p is at most about t away from the closed outline s                        *)
NearLoop(p, s, t) == \E i \in 1..Len(s) : NearSeg(p, s[i], s[Nxt(i, Len(s))], t)

(* a and b are the same outline up to t                                       *)
SameLoop(a, b, t) ==
    /\ Len(a) > 0 /\ Len(b) > 0
    /\ \A i \in 1..Len(a) : NearLoop(a[i], b, t)
    /\ \A i \in 1..Len(b) : NearLoop(b[i], a, t)

(* twice the area, signed                                                     *)
RECURSIVE AreaFrom(_, _)
AreaFrom(s, i) == IF i > Len(s) THEN 0
                  ELSE LET j == Nxt(i, Len(s))
                       IN (s[i][1] * s[j][2] - s[j][1] * s[i][2]) + AreaFrom(s, i + 1)
Area2(s) == AreaFrom(s, 1)
RECURSIVE PerimFrom(_, _)
PerimFrom(s, i) == IF i > Len(s) THEN 0 ELSE ISqrt(Len2(s[i], s[Nxt(i, Len(s))])) + PerimFrom(s, i + 1)
Perim(s) == PerimFrom(s, 1)

(* is p inside of the loop (even-odd); callers keep p away from the border    *)
Straddles(p, a, b) ==
    /\ (a[2] > p[2]) # (b[2] > p[2])
    /\ LET c == Cross(a, b, p) IN IF b[2] > a[2] THEN c > 0 ELSE c < 0
Inside(p, s) == Cardinality({i \in 1..Len(s) : Straddles(p, s[i], s[Nxt(i, Len(s))])}) % 2 = 1
=============================================================================
