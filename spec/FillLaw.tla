------------------------------- MODULE FillLaw -------------------------------
(* The law of filled areas: what lines an area has to be filled with.  Used on *)
(* the results of the patterns (FillTrace) and on complete prints (PrintTrace).*)
(* Everything is given in the frame in which the lines are vertical.           *)
(*                                                                             *)
(* r: loops  outlines and holes of the area                                    *)
(*    lines  the printed lines in order, <<from, to>>                          *)
(*    x0     place of any line of the raster, dist its spacing                 *)
(*    width  line width, zig: are the lines connected (and shortened for it)   *)
(*    tol    how exactly the lines are known, ptol: the same for the raster    *)
(*    min    runs of a raster line up to this length need not be printed       *)
EXTENDS Geo
In(r, p) == Cardinality({j \in 1..Len(r.loops) : Inside(p, r.loops[j])}) % 2 = 1
OnBorder(r, p, t) == \E j \in 1..Len(r.loops) : NearLoop(p, r.loops[j], t)
Floor(a, b) == a \div b

(* where the border crosses x: <<y, uncertainty>>                                  *)
CrossAt(r, x) == UNION {LET s == r.loops[j] IN
        {LET a == s[i] b == s[Nxt(i, Len(s))] IN
            <<a[2] + ((b[2] - a[2]) * (x - a[1])) \div (b[1] - a[1]),
              r.tol + (r.tol * Abs(b[2] - a[2])) \div Abs(b[1] - a[1]), j, i>>
         : i \in {i \in 1..Len(s) : (s[i][1] > x) # (s[Nxt(i, Len(s))][1] > x)}} : j \in 1..Len(r.loops)}
(* too near to a corner of the area to be judged                                   *)
AtCorner(r, x) == \E j \in 1..Len(r.loops) : \E i \in 1..Len(r.loops[j]) : Abs(r.loops[j][i][1] - x) <= r.ptol
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE m \in S : \A q \in S : m[1] <= q[1] IN <<m>> \o Sorted(S \ {m})
(* the printed lines: lower end first                                               *)
Low(q) == IF q[1][2] <= q[2][2] THEN q[1] ELSE q[2]
High(q) == IF q[1][2] <= q[2][2] THEN q[2] ELSE q[1]

RasterX(r, k) == r.x0 + k * r.dist
KAt(r, x) == (x - r.x0 + r.dist \div 2) \div r.dist
KOf(r, q) == KAt(r, q[1][1])
OnARaster(r, q) == /\ Len(q) = 2
                   /\ Abs(q[1][1] - RasterX(r, KOf(r, q))) <= r.ptol /\ Abs(q[2][1] - RasterX(r, KOf(r, q))) <= r.ptol
Vert(r) == {i \in 1..Len(r.lines) : OnARaster(r, r.lines[i])}
Short(r) == IF r.zig THEN r.width \div 2 ELSE 0
\* a run of about a line width becomes a point by the shortening (nothing is printed of it), slivers may be points at once
Collapses(r, lo, hi) == r.zig /\ r.min > 0 /\ Abs(hi[1] - lo[1] - 2 * Short(r)) <= lo[2] + hi[2] + r.min
CollapsedAt(r, p) == /\ r.zig /\ r.min > 0 /\ Abs(p[1] - RasterX(r, KAt(r, p[1]))) <= r.ptol
                     /\ LET cs == Sorted(CrossAt(r, RasterX(r, KAt(r, p[1])))) IN
                        \E n \in 1..Len(cs) \div 2 : LET lo == cs[2 * n - 1] hi == cs[2 * n] IN
                            (Collapses(r, lo, hi) \/ hi[1] - lo[1] <= lo[2] + hi[2] + r.min) /\ Abs(p[2] - (lo[1] + hi[1]) \div 2) <= lo[2] + hi[2] + r.min
\* a connection is the way from the end of one line to the start of the next one
IsConnection(r, i) == /\ r.zig /\ Len(r.lines[i]) = 2
                      /\ (i > 1 /\ Close(r.lines[i][1], r.lines[i - 1][2], r.tol)) \/ CollapsedAt(r, r.lines[i][1])
                      /\ (i < Len(r.lines) /\ Close(r.lines[i][2], r.lines[i + 1][1], r.tol)) \/ CollapsedAt(r, r.lines[i][2])
At8(q, k) == <<q[1][1] + ((q[2][1] - q[1][1]) * k) \div 8, q[1][2] + ((q[2][2] - q[1][2]) * k) \div 8>>

(* one expected run of a raster line: between the crossings lo and hi                *)
Fits(r, i, lo, hi) == LET q == r.lines[i] IN
    IF hi[1] - lo[1] > 2 * Short(r) + lo[2] + hi[2] + 2
    THEN Abs(Low(q)[2] - lo[1] - Short(r)) <= lo[2] /\ Abs(High(q)[2] - hi[1] + Short(r)) <= hi[2]
    ELSE Low(q)[2] >= lo[1] - lo[2] /\ High(q)[2] <= hi[1] + hi[2]
P(ok, why, info) == IF ok THEN {} ELSE {[why |-> why, info |-> info]}
RasterProblems(r, k, mine) ==
    LET x == RasterX(r, k)
        cs == Sorted(CrossAt(r, x))
        runs == {n \in 1..Len(cs) \div 2 : TRUE}
        fit == [n \in runs |-> {i \in mine : Fits(r, i, cs[2 * n - 1], cs[2 * n])}]
    IN IF AtCorner(r, x) THEN {}
       ELSE UNION {LET lo == cs[2 * n - 1] hi == cs[2 * n] IN
                   IF hi[1] - lo[1] > lo[2] + hi[2] + 2 + r.min
                   THEN P(fit[n] # {} \/ Collapses(r, lo, hi), "a line is missing or does not run from border to border", [x |-> x, from |-> lo[1], to |-> hi[1], lines |-> {r.lines[i] : i \in mine}])
                        \cup P(Cardinality(fit[n]) <= 1, "a line appears twice", [x |-> x, from |-> lo[1], to |-> hi[1], lines |-> {r.lines[i] : i \in mine}])
                   ELSE P(r.min > 0 \/ Cardinality(fit[n]) <= 1, "a line appears twice", [x |-> x, from |-> lo[1], to |-> hi[1]]) : n \in runs}
            \cup UNION {P((\E n \in runs : i \in fit[n]) \/ IsConnection(r, i) \/ (r.min > 0 /\ Close(r.lines[i][1], r.lines[i][2], r.min)),
                          "a line which is no part of the area's section", [x |-> x, line |-> r.lines[i]]) : i \in mine}
Problems(r, k0, k1) ==
    LET vert == Vert(r)
        by == [k \in k0..k1 |-> {i \in vert : KOf(r, r.lines[i]) = k}]
    IN UNION {RasterProblems(r, k, by[k]) : k \in k0..k1}
       \* whatever is not on the raster is a connection; everything is inside of the area
       \cup UNION {LET q == r.lines[i] IN
            P(i \in vert \/ IsConnection(r, i), "a line which is not on the raster and no connection", [line |-> q, x0 |-> r.x0, dist |-> r.dist])
            \cup P(i \notin vert \/ (KOf(r, q) >= k0 /\ KOf(r, q) <= k1), "a line outside of the raster", [line |-> q, x0 |-> r.x0, dist |-> r.dist])
            \cup P(\A n \in 0..8 : In(r, At8(q, n)) \/ OnBorder(r, At8(q, n), r.tol), "a line leaves the area", [line |-> q])
            \cup P(i \in vert \/ ~IsConnection(r, i) \/ Len2(q[1], q[2]) <= (r.width + 2 * r.dist + r.tol) * (r.width + 2 * r.dist + r.tol),
                   "a connection of lines which are not neighbours", [line |-> q])
          : i \in 1..Len(r.lines)}
=============================================================================
