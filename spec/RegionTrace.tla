----------------------------- MODULE RegionTrace -----------------------------
(* Validates the areas which the modifiers derive for whole layer stacks.     *)
(* The model is a stack of cells of an uneven grid, given in the frame of the *)
(* grid.  For points (probes) the trace tells in which areas of which layer   *)
(* they are: 0 no, 1 yes, 3 in several pieces, 2 too near to a border to tell.*)
(* What is expected follows from exact distances to cells and the meaning     *)
(* stated in module Region; it is 2 where corners leave room.                 *)
EXTENDS Geo, TraceLib
VARIABLE l
R == INSTANCE Region WITH N <- 1, Places <- {}, Near <- LAMBDA c : {}, BottomCounts <- {}, TopCounts <- {}, GapCounts <- {},
        InterfaceCounts <- {}, Reach <- 0, P <- <<>>, nb <- 0, nt <- 0, gap <- 0, il <- 0, pct <- TRUE, phase <- "", k <- 0,
        bottom <- <<>>, top <- <<>>, sparse <- <<>>, brim <- {}, need <- <<>>, full <- <<>>, iface <- <<>>, normal <- <<>>, last <- {}
E == Trace[l]
T == 6

(* ---- three valued logic: 2 is unknown ------------------------------------- *)
Not3(a) == IF a = 2 THEN 2 ELSE 1 - a
And3(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 1
Or3(a, b) == IF a = 1 \/ b = 1 THEN 1 ELSE IF a = 2 \/ b = 2 THEN 2 ELSE 0
\* over all values of a function
Any3(f) == IF \E i \in DOMAIN f : f[i] = 1 THEN 1 ELSE IF \E i \in DOMAIN f : f[i] = 2 THEN 2 ELSE 0
Tri(yes, no) == IF yes THEN 1 ELSE IF no THEN 0 ELSE 2

(* ---- geometry of the grid --------------------------------------------------*)
NX == Len(E.xs) - 1
NY == Len(E.ys) - 1
Cells == (1..NX) \X (1..NY)
Rect(c) == <<E.xs[c[1]], E.ys[c[2]], E.xs[c[1] + 1], E.ys[c[2] + 1]>>
Sq(x) == x * x
\* distances of a point to a rectangle
GX(p, r) == Max2(0, Max2(r[1] - p[1], p[1] - r[3]))
GY(p, r) == Max2(0, Max2(r[2] - p[2], p[2] - r[4]))
Cheb(p, r) == Max2(GX(p, r), GY(p, r))
Within(p, r, d) == d >= 0 /\ GX(p, r) <= d /\ GY(p, r) <= d /\ Sq(GX(p, r)) + Sq(GY(p, r)) <= Sq(d)
\* p and q are at most d apart
Reaches(p, q, d) == LET x == Abs(p[1] - q[1]) y == Abs(p[2] - q[2]) IN x <= Max2(0, d) /\ y <= Max2(0, d) /\ Sq(x) + Sq(y) <= Sq(d)
NonEmpty(r) == r[1] <= r[3] /\ r[2] <= r[4]
Clamp(p, r) == <<Max2(r[1], Min2(r[3], p[1])), Max2(r[2], Min2(r[4], p[2]))>>
Shrunk(r, d) == <<r[1] + d, r[2] + d, r[3] - d, r[4] - d>>
\* how far is it to the outside of the grid (negative if outside)
Edge(p) == Min2(Min2(p[1] - E.xs[1], E.xs[NX + 1] - p[1]), Min2(p[2] - E.ys[1], E.ys[NY + 1] - p[2]))
\* the distance of p to everything which does not belong to the cells S is at least d: surely, surely not
DeepCheb(p, S, d) == Edge(p) >= d /\ \A c \in Cells \ S : Cheb(p, Rect(c)) >= d
Shallow(p, S, d) == Edge(p) < d \/ \E c \in Cells \ S : d > 0 /\ Within(p, Rect(c), d - 1)
Depth3(p, S, d) == Tri(DeepCheb(p, S, d + T), Shallow(p, S, d - T))
\* the distance to the cells S is at most d
Near3(p, S, d) == Tri(\E c \in S : Within(p, IF d < T THEN Shrunk(Rect(c), T - d) ELSE Rect(c), Max2(0, d - T)),
                      \A c \in S : Cheb(p, Rect(c)) > d + T)

(* ---- what the options say ----------------------------------------------------*)
D(n) == n * E.ew + E.ew \div 2
Inner == D(E.ic - 1)
\* from the innermost perimeter to the border of the infill, inwards
ToBorder == (E.ew * (100 - E.ov)) \div 200
GrowSolid == (E.ew * (E.ov + E.add - 100)) \div 200

(* ---- perimeters and infill border ----------------------------------------------*)
Border3(p, S) ==
    IF ToBorder >= 0 THEN Depth3(p, S, Inner + ToBorder)
    ELSE LET e == -ToBorder
             qs == {<<p[1] + i * e2, p[2] + j * e2>> : i \in -1..1, j \in -1..1, e2 \in {e \div 2, e - T}}
         IN Tri(\E q \in qs : Reaches(p, q, e - T) /\ DeepCheb(q, S, Inner + T),
                Shallow(p, S, Inner - (3 * e) \div 2 - T))

\* the part of cell c which can be at least d away from everything which is not in S, looking along the row and the column
MaxOf(A) == CHOOSE a \in A : \A b \in A : b <= a
MinOf(A) == CHOOSE a \in A : \A b \in A : a <= b
Core(c, S, d) ==
    LET r == Rect(c)
        west == MaxOf({E.xs[i] : i \in {i \in 1..c[1] : <<i - 1, c[2]>> \notin S}})
        south == MaxOf({E.ys[j] : j \in {j \in 1..c[2] : <<c[1], j - 1>> \notin S}})
        east == MinOf({E.xs[i + 1] : i \in {i \in c[1]..NX : <<i + 1, c[2]>> \notin S}})
        north == MinOf({E.ys[j + 1] : j \in {j \in c[2]..NY : <<c[1], j + 1>> \notin S}})
    IN <<Max2(r[1], west + d), Max2(r[2], south + d), Min2(r[3], east - d), Min2(r[4], north - d)>>

(* ---- solid areas ------------------------------------------------------------------*)
\* base: the cells which are solid; S: the part they belong to
Solid3(p, S, base) ==
    IF GrowSolid >= 0
    THEN LET m == Abs(ToBorder) + 2 * T
             from == {<<p[1] + i * m, p[2] + j * m>> : i \in -1..1, j \in -1..1}
         IN Tri(\E c \in base : NonEmpty(Shrunk(Rect(c), T)) /\
                    \E f \in from : LET q == Clamp(f, Shrunk(Rect(c), T))
                                    IN Reaches(p, q, GrowSolid - T) /\ DeepCheb(q, S, Inner + T),
                \A c \in base : LET r == Core(c, S, Inner - T) IN ~NonEmpty(r) \/ Cheb(p, r) > GrowSolid + T)
    ELSE LET h == -GrowSolid IN
         Tri(DeepCheb(p, S, Inner + h + T) /\ DeepCheb(p, base, h + T),
             Shallow(p, S, Inner + h - T) \/ Shallow(p, base, h - T))

(* ---- support -------------------------------------------------------------------------*)
Side(c) == {<<<<c[1] - 1, c[2]>>, 1>>, <<<<c[1], c[2] - 1>>, 2>>, <<<<c[1] + 1, c[2]>>, 3>>, <<<<c[1], c[2] + 1>>, 4>>}
\* the rectangle of c without what is within d of a neighbour in S
Away(c, S, d, t) == [i \in 1..4 |-> LET r == Rect(c)
                                        by == IF \E s \in Side(c) : s[2] = i /\ s[1] \in S THEN Max2(d, t) ELSE t
                                    IN IF i <= 2 THEN r[i] + by ELSE r[i] - by]
Need3(p, above, below) ==
    LET C == above \ below IN
    Tri(\E c \in C : LET r == Away(c, below, E.d + 2 * T, T) q == Clamp(p, r)
                     IN NonEmpty(r) /\ Reaches(p, q, E.w - T) /\ \A b \in below : Cheb(q, Rect(b)) >= E.d + T,
        \A c \in C : LET r == Away(c, below, E.d - T, 0) IN ~NonEmpty(r) \/ Cheb(p, r) > E.w + T)

(* ---- brim -------------------------------------------------------------------------------*)
\* the cells from which the outside can be reached
RECURSIVE Flood(_, _)
Flood(free, seen) ==
    LET more == {c \in free \ seen : \E s \in seen : Abs(s[1] - c[1]) + Abs(s[2] - c[2]) = 1}
    IN IF more = {} THEN seen ELSE Flood(free, seen \cup more)
Filled(S) == LET free == Cells \ S
                 rim == {c \in free : c[1] \in {1, NX} \/ c[2] \in {1, NY}}
             IN Cells \ Flood(free, rim)
MinWidth == LET ws == {E.xs[i + 1] - E.xs[i] : i \in 1..NX} \cup {E.ys[i + 1] - E.ys[i] : i \in 1..NY}
            IN CHOOSE w \in ws : \A v \in ws : w <= v
Wide == MinWidth > 2 * E.ew + 4 * T
\* p is within d of the outermost perimeters of the filled first layer F
Ring3(p, P0, F, d) ==
    LET S == IF Wide THEN F ELSE P0 IN
    Tri(\E c \in S : LET r == Shrunk(Rect(c), E.ew \div 2 + 2 * T) q == Clamp(p, r)
                     IN NonEmpty(r) /\ Reaches(p, q, d - T),
        \A c \in F : Cheb(p, Rect(c)) > d - E.ew \div 2 + T)

(* ---- comparison ----------------------------------------------------------------------------*)
W(prop, why, info) == Viol(prop, E, l, why, info)
Same(prop, got, want, why, info) ==
    IF got = 2 \/ want = 2 \/ got = want THEN TRUE
    ELSE W(prop, (IF got = 3 THEN "overlapping pieces: " ELSE IF want = 1 THEN "missing: " ELSE "wrongly there: ") \o why, info)

ToSet(s) == {s[i] : i \in 1..Len(s)}
Regions ==
    LET n == E.n
        parts == [k \in 0..n - 1 |-> [i \in 1..Len(E.parts[k + 1]) |-> ToSet(E.parts[k + 1][i])]]
        P == [k \in 0..n - 1 |-> UNION {parts[k][i] : i \in 1..Len(parts[k])}]
        bottoms == [k \in 0..n - 1 |-> {c \in P[k] : LET In(j) == c \in P[j] IN R!IsBottom(In, k, E.nb)}]
        tops == [k \in 0..n - 1 |-> {c \in P[k] : LET In(j) == c \in P[j] IN R!IsTop(In, k, E.nt, n)}]
        F == Filled(P[0])
        Walls(k) == LET s == E.shape[k + 1] IN
            /\ Check(Len(s.walls) = Len(parts[k]) /\ \A i \in 1..Len(s.walls) : s.walls[i] = E.ic, "C09", E, l, "the number of perimeters", [layer |-> k, walls |-> s.walls, parts |-> Len(parts[k])])
            /\ Check(Len(parts[k]) > 0 \/ s.fills = 0, "C11", E, l, "an empty layer is filled", [layer |-> k])
            /\ Check(k = 0 \/ (Len(s.brim) = 0 /\ s.brimArea = 0), "C13", E, l, "brim not on the first layer", [layer |-> k])
            /\ Check(E.bn > 0 \/ (Len(s.brim) = 0 /\ s.brimArea = 0), "C13", E, l, "brim with a count of zero", [layer |-> k])
            /\ Check(\A i \in 1..Len(s.brim) : Len(s.brim[i]) = E.bn /\ \A j \in 1..Len(s.brim[i]) : s.brim[i][j] >= 1, "C13", E, l, "the number of brim loops", [brim |-> s.brim])
            /\ Check(E.sup \/ s.support = 0, "C12", E, l, "support though it is disabled", [layer |-> k])
        At(pr, k) ==
            LET p == pr.p
                g == pr.l[k + 1]
                info == [layer |-> k, p |-> p, got |-> g]
                in(i) == \E c \in parts[k][i] : Cheb(p, Rect(c)) = 0
                S(i) == parts[k][i]
                ov == [i \in 1..Len(parts[k]) |-> IF in(i) \/ ToBorder < 0 THEN Border3(p, S(i)) ELSE 0]
                m == Len(parts[k])
                B == Any3([i \in 1..m |-> IF ov[i] = 0 THEN 0 ELSE And3(ov[i], Solid3(p, S(i), bottoms[k] \cap S(i)))])
                Tp == And3(Any3([i \in 1..m |-> IF ov[i] = 0 THEN 0 ELSE And3(ov[i], Solid3(p, S(i), tops[k] \cap S(i)))]), Not3(B))
                O == Any3(ov)
                GO == Any3(g.o)
            IN /\ \A i \in 1..Min2(m, Len(g.w)) : \A j \in 1..Len(g.w[i]) :
                    Same("C09", g.w[i][j], IF in(i) THEN Depth3(p, S(i), D(j - 1)) ELSE 0, "area of a perimeter", [layer |-> k, p |-> p, part |-> i, perimeter |-> j, got |-> g.w[i]])
               /\ \A i \in 1..Min2(m, Len(g.o)) : Same("C11", g.o[i], ov[i], "infill border", [layer |-> k, p |-> p, part |-> i, got |-> g.o])
               /\ Check(Len(g.o) = m, "C11", E, l, "infill border for each part", [layer |-> k, got |-> g.o])
               /\ Same("C10", g.b, B, "bottom", info)
               /\ Same("C10", g.t, Tp, "top", info)
               /\ Same("C11", g.i, IF E.pct = 0 THEN 0 ELSE And3(O, And3(Not3(B), Not3(Tp))), "infill", info)
               \* the division itself does not depend on what the areas should be
               /\ LET vs == {g.b, g.t, g.i, GO} IN
                  \/ 2 \in vs
                  \/ IF GO = 0 THEN g.b + g.t + g.i = 0 \/ W("C11", "filled outside of the infill border", info)
                     ELSE /\ (g.b + g.t + g.i <= 1) \/ W("C11", "bottom, top and infill overlap", info)
                          /\ (E.pct = 0 \/ g.b + g.t + g.i >= 1) \/ W("C11", "a place inside of the infill border is not filled", info)
        \* support along the column of the point, from the top
        Column(pr) ==
            LET p == pr.p
                need == [k \in 0..n - 1 |-> IF k + E.tg < n - 1 /\ ~E.steep THEN Need3(p, P[k + E.tg + 1], P[k + E.tg]) ELSE 0]
                RECURSIVE Full(_)
                Full(k) == IF k >= n THEN 0 ELSE
                    LET above == IF k = n - 1 THEN 0 ELSE Full(k + 1)
                        want == Or3(above, need[k])
                    IN IF want = 0 THEN 0 ELSE And3(want, Not3(Near3(p, P[k], E.gap)))
                full == [k \in 0..n - 1 |-> IF E.sup THEN Full(k) ELSE 0]
                AtF(k) == IF k > n - 1 THEN 0 ELSE full[k]
                on == IF E.bn = 0 THEN 0 ELSE Ring3(p, P[0], F, E.bn * E.ew + E.ew \div 2)
                Got(k) == pr.l[k + 1]
                info(k) == [layer |-> k, p |-> p, support |-> [j \in 1..n |-> <<pr.l[j].s, pr.l[j].f>>]]
            IN \A k \in 0..n - 1 :
                 LET face == IF E.il = 0 THEN 0 ELSE And3(full[k], Not3(AtF(k + E.il)))
                     norm == And3(full[k], Not3(face))
                     mask == IF k = 0 THEN Not3(on) ELSE 1
                 IN /\ Same("C12", Got(k).f, And3(face, mask), "support interface", info(k))
                    /\ Same("C12", Got(k).s, And3(norm, mask), "normal support", info(k))
                    /\ ~(Got(k).s = 1 /\ Got(k).f = 1) \/ W("C12", "interface and normal support at the same place", info(k))
        Brims(pr) ==
            LET p == pr.p IN
            \A j \in 1..E.bn :
                LET got == Any3([i \in 1..Len(pr.br) |-> IF j > Len(pr.br[i]) THEN 0 ELSE pr.br[i][j]])
                IN /\ Same("C13", got, Ring3(p, P[0], F, j * E.ew), "area inside of a brim loop", [p |-> p, loop |-> j, got |-> pr.br])
                   /\ (\A i \in 1..Len(pr.br) : j > Len(pr.br[i]) \/ pr.br[i][j] # 3) \/ W("C13", "a brim loop appears twice", [p |-> p, loop |-> j, got |-> pr.br])
    IN /\ Check(E.count = n, "C11", E, l, "the number of layers changes", [count |-> E.count])
       /\ \A k \in 0..n - 1 : Walls(k)
       /\ Check(E.bn = 0 \/ ~Wide \/ Len(E.shape[1].brim) = Cardinality({i \in 1..Len(parts[0]) : \A j \in 1..Len(parts[0]) : i = j \/ ~(parts[0][i] \subseteq Filled(parts[0][j]))}),
                "C13", E, l, "brim for each outer part", [brim |-> E.shape[1].brim])
       /\ \A i \in 1..Len(E.probes) :
            /\ \A k \in 0..n - 1 : At(E.probes[i], k)
            /\ Column(E.probes[i])
            /\ E.bn = 0 \/ Brims(E.probes[i])
Region1 == E.ev = "region" /\ IF E.err THEN W("C11", "the modifiers fail", E.msg) ELSE Regions
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)
TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Region1 \/ Crash)
TSpec == TInit /\ [][TNext]_l
=============================================================================
