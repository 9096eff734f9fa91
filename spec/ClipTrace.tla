------------------------------- MODULE ClipTrace -------------------------------
(* Validates what the real clipper does with polygons against the set meaning    *)
(* of Clip, and point and path arithmetic against its definition.                *)
EXTENDS Geo, TraceLib

VARIABLE l
C == INSTANCE Clip WITH Shapes <- {}, MaxA <- 0, MaxB <- 0, a <- <<>>, b <- <<>>, res <- <<>>
E == Trace[l]
Tol == 4

InPart(part, p) == Inside(p, part.o) /\ ~\E i \in 1..Len(part.h) : Inside(p, part.h[i])
In(parts, p) == \E i \in 1..Len(parts) : InPart(parts[i], p)
Hits(parts, p) == Cardinality({i \in 1..Len(parts) : InPart(parts[i], p)})
NearPart(part, p, t) == NearLoop(p, part.o, t) \/ \E i \in 1..Len(part.h) : NearLoop(p, part.h[i], t)
NearParts(parts, p, t) == \E i \in 1..Len(parts) : NearPart(parts[i], p, t)

RECURSIVE SumSeq(_, _)
SumSeq(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumSeq(f, i - 1)
PartArea(part) == Abs(Area2(part.o)) - SumSeq([i \in 1..Len(part.h) |-> Abs(Area2(part.h[i]))], Len(part.h))
AreaOf(parts) == SumSeq([i \in 1..Len(parts) |-> PartArea(parts[i])], Len(parts))
PartPerim(part) == Perim(part.o) + SumSeq([i \in 1..Len(part.h) |-> Perim(part.h[i])], Len(part.h))
PerimOf(parts) == SumSeq([i \in 1..Len(parts) |-> PartPerim(parts[i])], Len(parts))

(* outlines and holes are oriented differently, holes lie in their outline         *)
WellFormed(parts) == \A i \in 1..Len(parts) :
    /\ Len(parts[i].o) >= 3
    /\ \A j \in 1..Len(parts[i].h) :
         /\ Len(parts[i].h[j]) >= 3
         /\ Area2(parts[i].h[j]) > 0 <=> Area2(parts[i].o) < 0
         /\ \A k \in 1..Len(parts[i].h[j]) : Inside(parts[i].h[j][k], parts[i].o) \/ NearLoop(parts[i].h[j][k], parts[i].o, 2)

(* ---- difference, intersection, union -------------------------------------------*)
OpPoint(op, inA, inB) == CASE op = "difference" -> inA /\ ~inB
                           [] op = "intersection" -> inA /\ inB
                           [] op = "union" -> inA \/ inB
Ops == {"difference", "intersection", "union"}
Bool ==
    /\ E.ev = "bool"
    /\ Check(E.a = E.a2 /\ E.b = E.b2, "C08", E, l, "a clipping operation changes its arguments", [a |-> Cut(E.a, 2), a2 |-> Cut(E.a2, 2)])
    /\ \A op \in Ops : Check(E.ok[op], "C08", E, l, "a clipping operation fails", [op |-> op])
    /\ \A op \in Ops : Check(WellFormed(E.res[op]), "C08", E, l, "badly formed parts", [op |-> op, res |-> Cut(E.res[op], 3)])
    /\ \A i \in 1..Len(E.pts) :
         LET p == E.pts[i] inA == In(E.a, p) inB == In(E.b, p) IN
         \/ NearParts(E.a, p, 3) \/ NearParts(E.b, p, 3)
         \/ \A op \in Ops :
              /\ Check(In(E.res[op], p) = OpPoint(op, inA, inB), "C08", E, l, "wrong area", [op |-> op, p |-> p, inA |-> inA, inB |-> inB])
              /\ Check(Hits(E.res[op], p) <= 1, "C08", E, l, "parts of the result overlap each other", [op |-> op, p |-> p])
    \* areas by inclusion and exclusion: finds pieces which are returned twice or as filled instead of as hole
    /\ E.areas =>
         LET d == AreaOf(E.res.difference) i == AreaOf(E.res.intersection) u == AreaOf(E.res.union)
             ca == AreaOf(E.ca) cb == AreaOf(E.cb) t == 4 * (PerimOf(E.ca) + PerimOf(E.cb) + 10)
         IN /\ Check(Abs(d + i - ca) <= t, "C08", E, l, "difference and intersection are not the whole", [d |-> d, i |-> i, a |-> ca])
            /\ Check(Abs(d + cb - u) <= t, "C08", E, l, "difference and union do not fit", [d |-> d, u |-> u, b |-> cb])
    \* whole cells: all of the middle of a cell is as Clip says
    /\ Has(E, "cells") => \A x, y \in 0..2 :
         LET A == {<<E.cells.a[i][1], E.cells.a[i][2]>> : i \in 1..Len(E.cells.a)}
             B == {<<E.cells.b[i][1], E.cells.b[i][2]>> : i \in 1..Len(E.cells.b)}
             u == E.cells.u p == <<x * u + u \div 2, y * u + u \div 2>>
         IN \A op \in Ops : Check(In(E.res[op], p) = (<<x, y>> \in C!Op(op, A, B)), "C08", E, l, "wrong cells", [op |-> op, cell |-> <<x, y>>])

(* ---- growing and shrinking --------------------------------------------------------*)
(* the exact distance of p to the segment is below d                                 *)
DistLt(p, a, b, d) ==
    /\ p[1] > Min2(a[1], b[1]) - d /\ p[1] < Max2(a[1], b[1]) + d
    /\ p[2] > Min2(a[2], b[2]) - d /\ p[2] < Max2(a[2], b[2]) + d
    /\ IF Dot(a, b, p) <= 0 THEN Len2(a, p) < d * d
       ELSE IF Dot(b, a, p) <= 0 THEN Len2(b, p) < d * d
       ELSE Abs(Cross(a, b, p)) < d * ISqrt(Len2(a, b))
LoopLt(p, s, d) == d > 0 /\ \E i \in 1..Len(s) : DistLt(p, s[i], s[Nxt(i, Len(s))], d)
PartLt(p, part, d) == LoopLt(p, part.o, d) \/ \E i \in 1..Len(part.h) : LoopLt(p, part.h[i], d)

(* Corners are cut straight at the distance, so the border may be up to the root of 2 *)
(* further away around them.                                                           *)
Far(d) == (d * 1415) \div 1000 + Tol
InsetPoint(part, d, parts, p, n) ==
    LET was == InPart(part, p) is == In(parts, p)
        W(why) == Viol("C08", E, l, why, [inset |-> n, by |-> d, p |-> p])
    IN IF d <= 0
       THEN /\ (is => was \/ PartLt(p, part, Tol)) \/ W("shrinking covers a place outside")
            /\ (is => ~PartLt(p, part, -d - Tol)) \/ W("shrinking leaves a place too near to the border")
            /\ (was /\ ~PartLt(p, part, Far(-d)) => is) \/ W("shrinking removes a place far from the border")
       ELSE /\ (was => is \/ PartLt(p, part, Tol)) \/ W("growing removes a place")
            /\ (PartLt(p, part, d - Tol) => is) \/ W("growing leaves out a place near the border")
            /\ (~was /\ ~PartLt(p, part, Far(d)) => ~is) \/ W("growing covers a place too far away")
(* corners of the result which are on the border (for parts of a reasonable size)       *)
InsetVertex(part, d, q) == /\ PartLt(q, part, Far(Abs(d)) + 1)
                           /\ ~PartLt(q, part, Abs(d) - Tol)
Inset ==
    /\ E.ev = "inset"
    /\ Check(E.part = E.part2, "C08", E, l, "insetting changes its argument", [part |-> E.part, after |-> E.part2])
    /\ Check(Len(E.res) = E.count, "C08", E, l, "wrong number of insets", [got |-> Len(E.res), expected |-> E.count])
    /\ \A n \in 1..Len(E.res) :
         LET d == E.init - (n - 1) * E.offset IN
         /\ Check(WellFormed(E.res[n]), "C08", E, l, "badly formed parts", [inset |-> n, res |-> Cut(E.res[n], 3)])
         /\ \A i \in 1..Len(E.pts) : InsetPoint(E.part, d, E.res[n], E.pts[i], n)
         /\ \A i \in 1..Len(E.pts) : NearParts(E.res[n], E.pts[i], 2) \/ Check(Hits(E.res[n], E.pts[i]) <= 1, "C08", E, l, "parts of the result overlap each other", [inset |-> n, p |-> E.pts[i]])
         /\ \A i \in 1..Len(E.res[n]) : \A k \in 1..Len(E.res[n][i].o) :
               Check(InsetVertex(E.part, d, E.res[n][i].o[k]), "C08", E, l, "the new outline is not at the distance", [inset |-> n, by |-> d, q |-> E.res[n][i].o[k]])
         /\ \A i \in 1..Len(E.res[n]) : \A j \in 1..Len(E.res[n][i].h) : \A k \in 1..Len(E.res[n][i].h[j]) :
               Check(InsetVertex(E.part, d, E.res[n][i].h[j][k]), "C08", E, l, "a new hole is not at the distance", [inset |-> n, by |-> d, q |-> E.res[n][i].h[j][k]])
(* insetting a list of parts is insetting each of them                                  *)
InsetLayer ==
    /\ E.ev = "insetlayer"
    /\ Check(E.res = E.single, "C08", E, l, "insetting several parts is not insetting each of them", [got |-> Len(E.res)])
    /\ Check(E.flat = E.single_flat /\ E.each = E.single_flat, "C08", E, l, "the list of all insets is not in order", [got |-> Len(E.flat), expected |-> Len(E.single_flat)])

(* ---- hull, top level, crossing, partitioning -------------------------------------------*)
IsVertex(p, loops) == \E i \in 1..Len(loops) : \E j \in 1..Len(loops[i]) : loops[i][j] = p
Hull ==
    /\ E.ev = "hull"
    /\ Check(E.ok, "C08", E, l, "no hull", 0)
    /\ Check(E.outs = E.outs2, "C08", E, l, "the hull changes its arguments", 0)
    /\ \A i \in 1..Len(E.hull) : Check(IsVertex(E.hull[i], E.outs), "C08", E, l, "the hull has a corner which is no point of the parts", [p |-> E.hull[i]])
    /\ LET h == E.hull n == Len(h) sign == IF Area2(h) >= 0 THEN 1 ELSE -1 IN
       Check(\A i \in 1..n : \A j \in 1..Len(E.outs) : \A k \in 1..Len(E.outs[j]) :
                 sign * Cross(h[i], h[Nxt(i, n)], E.outs[j][k]) >= 0,
             "C08", E, l, "the hull is not convex or does not contain all points", [hull |-> h])

SameSet(x, y, t) == /\ Len(x) = Len(y)
                    /\ \A i \in 1..Len(x) : \E j \in 1..Len(y) : SameLoop(x[i], y[j], t)
                    /\ \A j \in 1..Len(y) : \E i \in 1..Len(x) : SameLoop(x[i], y[j], t)
(* the outlines do not touch each other: one is in the other if a corner of it is           *)
Top ==
    /\ E.ev = "top"
    /\ Check(E.ok, "C08", E, l, "no top level outlines", 0)
    /\ Check(E.outs = E.outs2, "C08", E, l, "the search for top level outlines changes its arguments", 0)
    /\ LET top == {i \in 1..Len(E.outs) : ~\E j \in 1..Len(E.outs) : j # i /\ Inside(E.outs[i][1], E.outs[j])} IN
       /\ Check(Len(E.res) = Cardinality(top), "C08", E, l, "wrong number of top level outlines", [got |-> Len(E.res), expected |-> top])
       /\ \A i \in top : Check(\E j \in 1..Len(E.res) : SameLoop(E.outs[i], E.res[j], 2), "C08", E, l, "a top level outline is missing", [outline |-> i])

SegFar(p, q, a, b) ==   \* the segment p-q keeps away from a-b
    /\ ~NearSeg(p, a, b, 3) /\ ~NearSeg(q, a, b, 3) /\ ~NearSeg(a, p, q, 3) /\ ~NearSeg(b, p, q, 3)
    /\ ~(/\ (Cross(a, b, p) > 0) # (Cross(a, b, q) > 0)
         /\ (Cross(p, q, a) > 0) # (Cross(p, q, b) > 0))
LineFar(line, s) == \A k \in 1..Len(line) - 1 : \A i \in 1..Len(s) : SegFar(line[k], line[k + 1], s[i], s[Nxt(i, Len(s))])
Crossing ==
    /\ E.ev = "cross"
    /\ Check(E.ok, "C08", E, l, "the crossing test fails", 0)
    /\ Check(E.parts = E.parts2 /\ E.line = E.line2, "C08", E, l, "the crossing test changes its arguments", 0)
    /\ LET far == \A i \in 1..Len(E.parts) : LineFar(E.line, E.parts[i].o) /\ \A j \in 1..Len(E.parts[i].h) : LineFar(E.line, E.parts[i].h[j])
           outside == {i \in 1..Len(E.pts) : ~In(E.parts, E.pts[i]) /\ ~NearParts(E.parts, E.pts[i], 4)}
           point == \A k \in 1..Len(E.line) : E.line[k] = E.line[1]
       IN IF point THEN Check(~E.res, "C08", E, l, "a line without any length is crossing", [line |-> E.line])
          ELSE /\ outside # {} => Check(E.res, "C08", E, l, "a line which leaves the parts is not crossing", [line |-> E.line, outside |-> E.pts[CHOOSE i \in outside : TRUE]])
               /\ (far /\ In(E.parts, E.line[1])) => Check(~E.res, "C08", E, l, "a line inside of the parts is crossing", [line |-> E.line])

(* loose polygons become parts by the even-odd rule                                         *)
Partition ==
    /\ E.ev = "partition"
    /\ Check(E.ok, "C08", E, l, "partitioning fails", 0)
    /\ Check(E.polys = E.polys2, "C08", E, l, "partitioning changes its arguments", 0)
    /\ Check(WellFormed(E.res), "C08", E, l, "badly formed parts", [res |-> Cut(E.res, 3)])
    /\ \A i \in 1..Len(E.pts) :
         LET p == E.pts[i] IN
         \/ \E j \in 1..Len(E.polys) : NearLoop(p, E.polys[j], 12)
         \/ /\ Check(In(E.res, p) = (Cardinality({j \in 1..Len(E.polys) : Inside(p, E.polys[j])}) % 2 = 1), "C08", E, l, "wrong area after partitioning", [p |-> p])
            /\ Check(Hits(E.res, p) <= 1, "C08", E, l, "parts of the layer overlap each other", [p |-> p])

(* ---- points and vectors --------------------------------------------------------------------*)
Quo(x, d) == IF (x < 0) = (d < 0) THEN Abs(x) \div Abs(d) ELSE -(Abs(x) \div Abs(d))   \* towards zero
Max3(v) == IF Len(v) = 2 THEN Max2(v[1], v[2]) ELSE Max2(Max2(v[1], v[2]), v[3])
Each(v, F(_)) == [i \in 1..Len(v) |-> F(i)]
Sq(v) == SumSeq([i \in 1..Len(v) |-> v[i] * v[i]], Len(v))
Vec ==
    /\ E.ev = "vec"
    /\ LET v == E.v w == E.w n == Len(v)
           Is(got, want, what) == Check(got = want, "C08", E, l, "wrong " \o what, [v |-> v, w |-> w, k |-> E.k, got |-> got, expected |-> want])
       IN /\ Check(E.v2 = v /\ E.w2 = w, "C08", E, l, "vector arithmetic changes its operands", [v |-> v, after |-> E.v2, w |-> w, wafter |-> E.w2])
          /\ Is(E.add, [i \in 1..n |-> v[i] + w[i]], "sum")
          /\ Is(E.sub, [i \in 1..n |-> v[i] - w[i]], "difference of vectors")
          /\ Is(E.mul, [i \in 1..n |-> v[i] * E.k], "multiple")
          /\ Is(E.div, [i \in 1..n |-> Quo(v[i], E.k)], "quotient")
          /\ Is(E.size2, Sq(v), "squared length")
          /\ Is(E.size, ISqrt(Sq(v)), "length")
          /\ Is(E.shorter, E.k >= 0 /\ Sq(v) <= E.k * E.k, "comparison of the length")
          /\ Is(E.copy, v, "copy")
          /\ Has(E, "max") => Is(E.max, Max3(v), "maximum")
          /\ Has(E, "xy") => Is(E.xy, <<v[1], v[2]>>, "projection")
          /\ Has(E, "dot") => Is(E.dot, v[1] * w[1] + v[2] * w[2], "dot product")
          /\ Has(E, "rot") =>
               \* sine and cosine in 1 / 10000
               LET s == E.sin c == E.cos
                   wx == v[1] * c - v[2] * s wy == v[1] * s + v[2] * c
                   t == Abs(v[1]) + Abs(v[2]) + 10000
               IN Check(Abs(E.rot[1] * 10000 - wx) <= t /\ Abs(E.rot[2] * 10000 - wy) <= t, "C08", E, l, "wrong rotation", [v |-> v, sin |-> s, cos |-> c, got |-> E.rot])
PathEv ==
    /\ E.ev = "pathop"
    /\ Check(E.p2 = E.p, "C08", E, l, "a path operation changes its argument", 0)
    /\ LET pts == UNION {{E.p[i][j] : j \in 1..Len(E.p[i])} : i \in 1..Len(E.p)}
           lo == IF pts = {} THEN <<0, 0>> ELSE <<CHOOSE x \in {q[1] : q \in pts} : \A q \in pts : x <= q[1], CHOOSE y \in {q[2] : q \in pts} : \A q \in pts : y <= q[2]>>
           hi == IF pts = {} THEN <<0, 0>> ELSE <<CHOOSE x \in {q[1] : q \in pts} : \A q \in pts : x >= q[1], CHOOSE y \in {q[2] : q \in pts} : \A q \in pts : y >= q[2]>>
       IN /\ Check(E.lo = lo /\ E.hi = hi, "C08", E, l, "wrong bounding box", [lo |-> E.lo, hi |-> E.hi, expected |-> <<lo, hi>>])
          /\ Has(E, "rot") => Check(E.rot = E.rotpts, "C08", E, l, "rotating a path is not rotating its points", 0)
          /\ Has(E, "closed") => Check(E.closed = (Len2(E.p[1][1], E.p[1][Len(E.p[1])]) <= E.k * E.k), "C08", E, l, "wrong test for a closed path", [path |-> Cut(E.p[1], 3), k |-> E.k])

Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)

TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1
         /\ (Bool \/ Inset \/ InsetLayer \/ Hull \/ Top \/ Crossing \/ Partition \/ Vec \/ PathEv \/ Crash)
TSpec == TInit /\ [][TNext]_l
=============================================================================
