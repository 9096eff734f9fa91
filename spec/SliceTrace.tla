------------------------------ MODULE SliceTrace ------------------------------
(* Validates the layers the real optimizer and slicer make of solids which are  *)
(* given by nested shells: the number of layers and their heights against       *)
(* Layers, the outlines against the interpolated cross-section of the shells,   *)
(* and what is closed or left out if faces are missing against Contour.         *)
EXTENDS Geo, TraceLib

VARIABLE l
L == INSTANCE Layers WITH MaxZ <- 0, Inits <- {}, Ths <- {}, MaxSpans <- 0, init <- 0, th <- 0, todo <- {}, spans <- {}, layers <- <<>>
C == INSTANCE Contour WITH K <- 0, Sizes <- {}, Join <- 0, Finish <- 0, gap <- 0, pieces <- 0, outcome <- 0

E == Trace[l]
Tol == 14        \* micrometres: rounding while slicing plus simplification

(* ---- the cross-section of one shell ---------------------------------------*)
(* the interval k of levels the height z lies in, 0 if there is none            *)
IntervalAt(sh, z) ==
    LET ks == {k \in 1..Len(sh.levels) - 1 : sh.levels[k].z < z /\ z <= sh.levels[k + 1].z}
    IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE

Lerp(a, b, za, zb, z) == <<a[1] + ((b[1] - a[1]) * (z - za)) \div (zb - za),
                           a[2] + ((b[2] - a[2]) * (z - za)) \div (zb - za)>>

(* Two points per side: the one on the vertical edge and the one on the         *)
(* diagonal from the lower edge point to the next upper one.                    *)
Cycle(sh, k, z) ==
    LET lo == sh.levels[k] hi == sh.levels[k + 1] n == Len(lo.pts)
    IN [i \in 1..2 * n |->
          LET e == (i + 1) \div 2
          IN IF i % 2 = 1 THEN Lerp(lo.pts[e], hi.pts[e], lo.z, hi.z, z)
                          ELSE Lerp(lo.pts[e], hi.pts[Nxt(e, n)], lo.z, hi.z, z)]

Prv(i, n) == IF i = 1 THEN n ELSE i - 1
(* segment i of the cycle runs from point i to the next one                     *)
MissingAt(sh, k) == {sh.missing[m][2] : m \in {m \in 1..Len(sh.missing) : sh.missing[m][1] = k}}
(* the points which are left                                                     *)
RECURSIVE KeptFrom(_, _, _)
KeptFrom(c, miss, i) == IF i > Len(c) THEN <<>>
                        ELSE (IF i \in miss /\ Prv(i, Len(c)) \in miss THEN <<>> ELSE <<c[i]>>) \o KeptFrom(c, miss, i + 1)
(* the gaps: chords over maximal runs of missing segments                        *)
RECURSIVE RunEnd(_, _, _)
RunEnd(n, miss, i) == IF Nxt(i, n) \in miss THEN RunEnd(n, miss, Nxt(i, n)) ELSE i
GapAt(c, miss, i) == ISqrt(Len2(c[i], c[Nxt(RunEnd(Len(c), miss, i), Len(c))]))
RECURSIVE GapsFrom(_, _, _)
GapsFrom(c, miss, i) == IF i > Len(c) THEN <<>>
                        ELSE (IF i \in miss /\ Prv(i, Len(c)) \notin miss THEN <<GapAt(c, miss, i)>> ELSE <<>>) \o GapsFrom(c, miss, i + 1)
(* chords of the chains which are left between gaps bigger than the join distance *)
BigEnds(c, miss) == {i \in miss : Prv(i, Len(c)) \notin miss /\ GapAt(c, miss, i) > E.join}
RECURSIVE NextBig(_, _, _, _)
NextBig(c, big, i, left) == IF left = 0 \/ i \in big THEN i ELSE NextBig(c, big, Nxt(i, Len(c)), left - 1)
(* the chain after the big gap starting at i ends where the next big gap starts   *)
ChainChord(c, miss, big, i) ==
    LET s == Nxt(RunEnd(Len(c), miss, i), Len(c))
    IN ISqrt(Len2(c[s], c[NextBig(c, big, s, Len(c))]))

(* What the shell contributes at height z: [st |-> status, p |-> outline];       *)
(* status "out" nothing, "in" the outline, "any" one or the other.                *)
Border(g, d) == Abs(g - d) <= 6
Section(sh, z) ==
    LET k == IntervalAt(sh, z) IN
    IF k = 0 THEN [st |-> "out", p |-> <<>>]
    ELSE LET c == Cycle(sh, k, z)
             miss == MissingAt(sh, k)
             gaps == GapsFrom(c, miss, 1)
             kept == KeptFrom(c, miss, 1)
             big == BigEnds(c, miss)
         IN IF Cardinality(miss) = Len(c) THEN [st |-> "out", p |-> <<>>]
            ELSE IF miss # {} /\ (\E i \in 1..Len(gaps) : Border(gaps[i], E.join) \/ Border(gaps[i], E.finish))
                 THEN [st |-> "any", p |-> kept]
            ELSE IF Cardinality(big) >= 2 /\ \E i \in big : ChainChord(c, miss, big, i) <= E.finish + 6
                 THEN [st |-> "any", p |-> kept]
            ELSE IF miss # {} /\ ~C!Closes(gaps, E.join, E.finish) THEN [st |-> "out", p |-> <<>>]
            ELSE IF Len(kept) < 3 \/ Perim(kept) <= E.finish + 50 THEN [st |-> "any", p |-> kept]
            ELSE [st |-> "in", p |-> kept]

(* ---- one layer -------------------------------------------------------------*)
Sections(z) == [i \in 1..Len(E.shells) |-> Section(E.shells[i], z)]
With(sec, d, st) == {i \in 1..Len(sec) : E.shells[i].depth % 2 = d /\ sec[i].st \in st}
Kids(i) == {j \in 1..Len(E.shells) : E.shells[j].parent = i}

AreaClose(a, b) == Abs(Abs(Area2(a)) - Abs(Area2(b))) <= 2 * Tol * (Perim(a) \div 2 + 50)
Matches(o, p) == Len(o) >= 3 /\ NearLoop(o[1], p, Tol) /\ SameLoop(o, p, Tol) /\ AreaClose(o, p)

PartOf(parts, p) == {n \in 1..Len(parts) : Matches(parts[n].o, p)}

\* what is smaller than the precision is no region
Speck(p) == \A i \in 1..Len(p) : Close(p[i], p[1], Tol)
Visible(part) == ~Speck(part.o)
LayerOK(k, z) ==
    LET sec == Sections(z)
        all == SelectSeq(E.layers[k], Visible)
        parts == [i \in 1..Len(all) |-> [o |-> all[i].o, h |-> SelectSeq(all[i].h, LAMBDA p : ~Speck(p))]]
        must == With(sec, 0, {"in"})
        may == With(sec, 0, {"any"})
        hit == [i \in must |-> PartOf(parts, sec[i].p)]
        W(why, info) == Viol("C07", E, l, why, [layer |-> k, z |-> z, info |-> info])
    IN /\ \/ Cardinality(must) <= Len(parts) /\ Len(parts) <= Cardinality(must) + Cardinality(may)
          \/ W("wrong number of parts", [parts |-> Len(parts), expected |-> Cardinality(must)])
       /\ \A i \in must :
            IF Cardinality(hit[i]) # 1 THEN W("a region of the cross-section is no part, or is several", [shell |-> i, outline |-> sec[i].p, parts |-> Cut(parts, 4)])
            ELSE LET part == parts[CHOOSE n \in hit[i] : TRUE]
                     hm == {j \in Kids(i) : sec[j].st = "in"}
                     ha == {j \in Kids(i) : sec[j].st = "any"}
                 IN /\ (Cardinality(hm) <= Len(part.h) /\ Len(part.h) <= Cardinality(hm) + Cardinality(ha)) \/ W("wrong number of holes", [shell |-> i, got |-> Len(part.h), expected |-> hm])
                    /\ \A j \in hm : (Cardinality({n \in 1..Len(part.h) : Matches(part.h[n], sec[j].p)}) = 1)
                                     \/ W("a cavity is not a hole of the part around it", [shell |-> j, outline |-> sec[j].p, holes |-> Cut(part.h, 4)])

Solid ==
    /\ E.ev = "slice"
    /\ LET n == L!CountOf(E.init, E.th, E.top) IN
       /\ Check(~E.err, "C07", E, l, "slicing fails", E.msg)
       /\ Check(E.err \/ Len(E.layers) = n, "C06", E, l, "wrong number of layers", [got |-> Len(E.layers), expected |-> n, top |-> E.top, init |-> E.init, th |-> E.th])
       \* C06: something is there exactly where the solid is (shells with missing faces aside)
       /\ \A k \in 1..Len(E.layers) :
            LET z == L!ZOf(E.init, E.th, k - 1)
                solid == \E i \in 1..Len(E.shells) : LET s == E.shells[i] IN
                            s.depth = 0 /\ s.missing = <<>> /\ ~s.small /\ L!Reaches(<<s.levels[1].z, s.levels[Len(s.levels)].z>>, z)
                may == \E i \in 1..Len(E.shells) : LET s == E.shells[i] IN L!Reaches(<<s.levels[1].z, s.levels[Len(s.levels)].z>>, z)
            IN /\ Check(solid => Len(E.layers[k]) > 0, "C06", E, l, "an empty layer where the model has material", [layer |-> k, z |-> z])
               /\ Check(~may => Len(E.layers[k]) = 0, "C06", E, l, "material on a layer where the model has none", [layer |-> k, z |-> z])
               /\ (E.contours => LayerOK(k, z))

Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)

\* complete runs: the rest is judged by PrintTrace
Rest == E.ev \notin {"slice", "crash"}

TInit == l = 1
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Solid \/ Crash \/ Rest)
TSpec == TInit /\ [][TNext]_l
=============================================================================
