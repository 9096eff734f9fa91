------------------------------ MODULE PrintTrace ------------------------------
(* Complete prints of the real code, line by line.  A `plan` tells what was     *)
(* asked for (options) and what the steps before the generator planned for each *)
(* layer (walls, brim, areas to be filled).  Every line of the G-code is then   *)
(* a step of the job monitor (Job) and of the printer (Printer); runs of        *)
(* printing moves have to be planned paths, filled areas obey FillLaw.          *)
EXTENDS TraceLib, FiniteSets
PR == INSTANCE Printer
JB == INSTANCE Job
FL == INSTANCE FillLaw
TR == INSTANCE Trig
F == INSTANCE Fill WITH W <- 0, H <- 0, Dist <- 1, Limit <- 0, area <- {}, left <- {}, done <- <<>>, side <- 0
VARIABLES l,
          pl,      \* line of the plan
          j, m,    \* job and printer
          left,    \* planned paths of the layer which are not yet printed
          groups,  \* filled areas of the layer: <<[kind, lines]>>
              \* where the rasters of the patterns are
          rates,   \* filament per length in the first and in the other layers
          skirts   \* loops of the skirt so far
vars == <<l, pl, j, m, left, groups, skirts, rates>>
E == Trace[l]
P == Trace[pl]
Abs(x) == PR!Abs(x)

\* what is printed wrongly also breaks what is promised about its kind
Also(kind) == CASE kind = "SKIRT" -> {"C13"} [] kind \in {"WALL-OUTER", "WALL-INNER"} -> {"C09"} [] kind = "SUPPORT" -> {"C12", "C14"}
                [] kind \in {"TOP", "BOTTOM"} -> {"C10", "C14"} [] kind = "INTERNAL" -> {"C11", "C14"} [] OTHER -> {}
AlsoOf(v) == IF v.why = "prints at a wrong height" THEN {"C06"} ELSE IF "also" \in DOMAIN v THEN Also(v.also) ELSE {}
Say(bad) == \A v \in bad : \A q \in {v.prop} \cup AlsoOf(v) : Viol(q, E, l, v.why, v.info)
BadOf(ok, kind, why, info) == IF ok THEN {} ELSE {[prop |-> "C20", also |-> kind, why |-> why, info |-> info]}
Bad(ok, prop, why, info) == IF ok THEN {} ELSE {[prop |-> prop, why |-> why, info |-> info]}
Paths(k) == IF k >= 0 /\ k < Len(P.layers) THEN P.layers[k + 1].paths ELSE <<>>
Areas(k) == P.layers[k + 1].areas
Invisible(pts) == \A i \in 1..Len(pts) : PR!Close(pts[i], pts[1], 30)

\* the lines of filled areas may be points (which are not printed at all)
Filling == j.kind \in {"SUPPORT", "FILL"}
Context == [move |-> P.move, print |-> JB!Speed(P, j.layer, j.kind), rspeed |-> P.rspeed, rlen |-> P.rlen, hop |-> P.hop,
            z |-> JB!Height(P, j.layer), rate |-> IF j.layer = 0 THEN rates[1] ELSE rates[2], judged |-> JB!Judged(j.kind),
            lost |-> Filling, must |-> P.rlen > 0 /\ P.rspeed > 0]

(* ---- the skirt ---------------------------------------------------------------*)
SegDist(p, a, b) == IF PR!Dot(a, b, p) <= 0 THEN PR!Dist(a, p)
                    ELSE IF PR!Dot(a, b, p) >= PR!Len2(a, b) THEN PR!Dist(b, p)
                    ELSE Abs(PR!Cross(a, b, p)) \div PR!Max2(1, PR!ISqrt(PR!Len2(a, b)))
RECURSIVE HullDist(_, _, _)
HullDist(p, h, i) == IF i > Len(h) THEN 1000000 ELSE PR!Min2(SegDist(p, h[i], h[PR!Nxt(i, Len(h))]), HullDist(p, h, i + 1))
SkirtAt(n) == P.sdist + P.ew * P.bn + P.ew + n * P.ew
Mid(a, b) == <<(a[1] + b[1]) \div 2, (a[2] + b[2]) \div 2>>
\* where the border has to be beside the middle of an edge of the hull (which runs counter clockwise)
Beside(a, b, d) == LET n == PR!Max2(1, PR!ISqrt(PR!Len2(a, b))) q == Mid(a, b) IN <<q[1] + ((b[2] - a[2]) * d) \div n, q[2] - ((b[1] - a[1]) * d) \div n>>
SkirtBad(run, n) ==
    LET h == P.hull d == SkirtAt(n) loop == SubSeq(run, 1, Len(run) - 1)
        ok(p, far) == ~PR!Inside(p, h) /\ LET q == HullDist(p, h, 1) IN q >= d - 16 /\ (far => q <= (d * 3) \div 2 + 16)
    IN Bad(Len(h) > 2, "C13", "a skirt around nothing", n)
       \cup Bad(\A i \in 1..Len(loop) : ok(loop[i], TRUE) /\ ok(Mid(loop[i], loop[PR!Nxt(i, Len(loop))]), TRUE), "C13", "a loop of the skirt is not at its distance", [n |-> n, distance |-> d, run |-> run, hull |-> h])
       \cup Bad(\A i \in 1..Len(h) : PR!Len2(h[i], h[PR!Nxt(i, Len(h))]) < 160000 \/ PR!NearLoop(Beside(h[i], h[PR!Nxt(i, Len(h))], d), loop, 16),
                "C13", "a loop of the skirt does not surround everything at its distance", [n |-> n, distance |-> d, run |-> run, hull |-> h])
\* what the harness says about the hull
HullOK == LET h == P.hull IN
    Len(h) < 3 \/ /\ \A i \in 1..Len(h) : \A k \in 1..Len(P.hpts) : PR!Cross(h[i], h[PR!Nxt(i, Len(h))], P.hpts[k]) >= 0
                  /\ \A i \in 1..Len(h) : h[i] \in {P.hpts[k] : k \in 1..Len(P.hpts)}

(* ---- runs of printing moves ----------------------------------------------------*)
Closed(run) == Len(run) > 2 /\ run[1] = run[Len(run)]
Looping == j.kind \in {"SKIRT", "WALL-OUTER", "WALL-INNER"}
SkirtsWanted == IF j.layer = 0 /\ Len(P.hull) > 2 THEN P.sc ELSE 0
Candidates(run) == {i \in left : LET q == Paths(j.layer)[i] IN q.k = j.kind /\ PR!Close(q.pts[1], run[1], PR!PTol) /\ PR!VisitsPath(run, q.pts, TRUE)}
Mislabelled(run) == {i \in left : LET q == Paths(j.layer)[i] IN q.k # j.kind /\ PR!Close(q.pts[1], run[1], PR!PTol) /\ PR!VisitsPath(run, q.pts, TRUE)}
Ahead(q) == {i \in left : LET w == Paths(j.layer)[i] IN w.part = q.part /\ w.k # "SKIRT" /\ JB!Rank(w.inset) < JB!Rank(q.inset) /\ ~Invisible(w.pts)}
\* the run is over: which planned path was it; final: there is nothing more to come
Loop(run, final) ==
    IF run = <<>> \/ ~Looping \/ ~(final \/ Closed(run)) THEN [take |-> 0, skirt |-> FALSE, bad |-> {}, clear |-> FALSE]
    ELSE IF j.kind = "SKIRT" /\ Len(skirts) < SkirtsWanted /\ (Closed(run) \/ final)
    THEN [take |-> 0, skirt |-> TRUE, clear |-> TRUE,
          bad |-> (IF Closed(run) THEN SkirtBad(run, Len(skirts)) ELSE Bad(FALSE, "C20", "a loop of the skirt is not closed", run))
                  \cup Bad(left = {i \in 1..Len(Paths(0)) : TRUE} /\ groups = <<>>, "C13", "the skirt is not printed first", 0)]
    ELSE LET c == Candidates(run) IN
         IF c # {}
         THEN LET best == CHOOSE i \in c : \A k \in c : JB!Rank(Paths(j.layer)[i].inset) <= JB!Rank(Paths(j.layer)[k].inset)
                  q == Paths(j.layer)[best]
              IN [take |-> best, skirt |-> FALSE, clear |-> TRUE,
                  bad |-> (IF q.k = "SKIRT" THEN {} ELSE Bad(Ahead(q) = {}, "C09", "a wall is printed before one which has to come first", [path |-> q, ahead |-> {Paths(j.layer)[i] : i \in Ahead(q)}]))]
         ELSE [take |-> 0, skirt |-> FALSE, clear |-> final,
               bad |-> IF final /\ ~(\A i \in 1..Len(run) : PR!Close(run[i], run[1], 60))
                       THEN BadOf(FALSE, j.kind, "something is printed which was not planned (or not with this label)",
                                [kind |-> j.kind, run |-> run, planned |-> {Paths(j.layer)[i].pts : i \in {i \in left : Paths(j.layer)[i].k = j.kind}}])
                            \* printed with a wrong label: is it also the wrong speed
                            \cup LET o == Mislabelled(run) IN
                                 IF o = {} THEN {} ELSE Bad(\E i \in o : PR!Same(m.p.f, JB!Speed(P, j.layer, Paths(j.layer)[i].k)), "C17",
                                                            "a wall is printed at the speed of another kind", [kinds |-> {Paths(j.layer)[i].k : i \in o}, speed |-> m.p.f])
                       ELSE {}]

(* ---- filled areas ------------------------------------------------------------------*)
Frame(p, deg) == TR!Turn(p, deg)
Frames(s, deg) == [i \in 1..Len(s) |-> Frame(s[i], deg)]
Dir(kind, k) == CASE kind = "SUPPORT" -> F!Direction(90, FALSE, k) [] kind = "INTERFACE" -> F!Direction(0, FALSE, k) [] OTHER -> F!Direction(P.deg, TRUE, k)
LineDist(kind) == CASE kind = "SUPPORT" -> P.spacing [] kind = "INTERNAL" -> P.idist [] OTHER -> P.ew
Zig(kind) == CASE kind \in {"SUPPORT", "INTERFACE"} -> TRUE [] kind = "INTERNAL" -> P.zig [] OTHER -> FALSE
\* the raster starts at the side of the model's box (which is bigger for support)
Lowest(S) == CHOOSE x \in S : \A y \in S : x <= y
Highest(S) == CHOOSE x \in S : \A y \in S : x >= y
Origin(kind, k) == LET g == IF kind \in {"SUPPORT", "INTERFACE"} THEN 2 * P.spacing ELSE 0 IN
    Lowest({Frame(q, Dir(kind, k))[1] : q \in {P.lo[1] - g, P.hi[1] + g} \X {P.lo[2] - g, P.hi[2] + g}})
LinesIn(ls, deg) == [i \in 1..Len(ls) |-> <<Frame(ls[i][1], deg), Frame(ls[i][2], deg)>>]
Rec(kind, k, part, ls) == LET d == Dir(kind, k) IN
    [loops |-> [i \in 1..Len(part) |-> Frames(part[i], d)], lines |-> LinesIn(ls, d), x0 |-> Origin(kind, k), dist |-> LineDist(kind), width |-> P.ew, zig |-> Zig(kind),
     tol |-> 14, ptol |-> 22, min |-> 60]
Xs(r) == UNION {{r.loops[i][n][1] : n \in 1..Len(r.loops[i])} : i \in 1..Len(r.loops)}
FillProblems(kind, k, part, ls) ==
    LET r == Rec(kind, k, part, ls) xs == Xs(r)
    IN IF xs = {} THEN {} ELSE FL!Problems(r, FL!KAt(r, Lowest(xs)) - 1, FL!KAt(r, Highest(xs)) + 1)
\* a group of lines against the areas it may be
GroupKind(kind) == IF kind \in {"SUPPORT", "INTERFACE"} THEN "SUPPORT" ELSE kind
PartsFor(k, gk) == IF gk = "SUPPORT" THEN [i \in 1..Len(Areas(k).SUPPORT) |-> <<"SUPPORT", Areas(k).SUPPORT[i]>>] \o [i \in 1..Len(Areas(k).INTERFACE) |-> <<"INTERFACE", Areas(k).INTERFACE[i]>>]
                   ELSE [i \in 1..Len(Areas(k)[gk]) |-> <<gk, Areas(k)[gk][i]>>]
PartProblems(k, pt, ls) == FillProblems(pt[1], k, pt[2], ls)
\* pairs up groups and parts: in order if that fits, else in any way that fits
RECURSIVE Pair(_, _, _)
Pair(k, gs, ps) ==
    IF gs = <<>> THEN UNION {PartProblems(k, ps[i], <<>>) : i \in 1..Len(ps)}
    ELSE IF ps = <<>> THEN IF \A n \in 1..Len(gs) : gs[n].lines = <<>> THEN {} ELSE {[why |-> "something is filled which was not planned", info |-> Head(gs)]}
    ELSE LET fit == IF PartProblems(k, ps[1], Head(gs).lines) = {} THEN {1} ELSE {i \in 2..Len(ps) : PartProblems(k, ps[i], Head(gs).lines) = {}}
             i == IF fit = {} THEN 1 ELSE CHOOSE i \in fit : \A n \in fit : i <= n
         IN (IF fit = {} THEN PartProblems(k, ps[1], Head(gs).lines) ELSE {})
            \cup Pair(k, Tail(gs), [n \in 1..Len(ps) - 1 |-> IF n < i THEN ps[n] ELSE ps[n + 1]])
Of(gk) == LET S == {n \in 1..Len(groups) : groups[n].kind = gk}
          IN [n \in 1..Cardinality(S) |-> groups[CHOOSE x \in S : Cardinality({y \in S : y < x}) = n - 1]]
FillBad(k) == UNION {{[prop |-> "C20", also |-> gk, why |-> "filling " \o gk \o ": " \o p.why, info |-> p.info] : p \in Pair(k, Of(gk), PartsFor(k, gk))}
                         : gk \in {"SUPPORT", "BOTTOM", "TOP", "INTERNAL"}}

(* ---- a layer is over ------------------------------------------------------------------*)
LayerOver(lf) ==
    IF j.phase # "layers" \/ j.layer < 0 \/ j.layer >= Len(P.layers) THEN {}
    ELSE UNION {BadOf(Invisible(Paths(j.layer)[i].pts), Paths(j.layer)[i].k, "a planned path is not printed", Paths(j.layer)[i]) : i \in lf}
                  \cup FillBad(j.layer)
                  \cup Bad(PR!SumOK(m), "C15", "the filament of everything printed is not its volume", [sum |-> m.sum, e |-> m.p.e])
                  \cup Bad(m.ret = 0, "C16", "a retraction is not given back", m.ret)
                  \cup (IF j.layer = 0 THEN Bad(Len(skirts) >= SkirtsWanted, "C13", "loops of the skirt are missing", [wanted |-> SkirtsWanted, got |-> Len(skirts)]) ELSE {})

(* ---- the lines ---------------------------------------------------------------------------*)
Plan == /\ E.ev = "plan"
        /\ Check(~E.err, "C03", E, l, "slicing fails", E.msg)
        /\ pl' = l /\ j' = JB!JobStart /\ m' = PR!Start /\ left' = {} /\ groups' = <<>> /\ skirts' = <<>>
        /\ rates' = <<PR!Rate(E.th0, E.ew, E.mult, E.d), PR!Rate(E.th, E.ew, E.mult, E.d)>>
PlanOK == /\ E.ev = "planned"
          /\ Check(HullOK, "C20", E, l, "hull", 0)
          /\ Check(P.pct = 0 \/ (10000 \div P.ew) * P.pct = 0 \/ Abs(P.idist - 1000000 \div ((10000 \div P.ew) * P.pct)) <= 1, "C20", E, l, "distance", P.idist)
          /\ UNCHANGED <<pl, j, m, left, groups, skirts, rates>>
\* the current run ends here
Flush == Loop(m.run, TRUE)
After(r) == IF r.take = 0 THEN left ELSE left \ {r.take}
Custom == /\ E.ev \in {"cmt", "cmd", "raw", "mv"} /\ JB!IsCustom(P, j, E)
          /\ j' = JB!Custom(P, j, E).j
          /\ m' = IF E.ev = "mv" THEN [m EXCEPT !.p = PR!Exec(m.p, E)] ELSE m
          /\ UNCHANGED <<pl, left, groups, skirts, rates>>
Comment == /\ E.ev = "cmt" /\ ~JB!IsCustom(P, j, E)
           /\ LET r == Flush lf == After(r) IN
              /\ skirts' = IF r.skirt THEN Append(skirts, m.run) ELSE skirts
              /\ CASE Has(E, "layer") -> LET s == JB!Layer(P, j, E.layer) o == LayerOver(lf) IN
                                         /\ Say(r.bad \cup s.bad \cup o) /\ j' = s.j
                                         /\ left' = {i \in 1..(IF E.layer < Len(P.layers) THEN Len(P.layers[E.layer + 1].paths) ELSE 0) : TRUE} /\ groups' = <<>>
                   [] E.s = "END_GCODE" -> LET s == JB!End(P, j) o == LayerOver(lf) IN
                                           Say(r.bad \cup s.bad \cup o) /\ j' = s.j /\ left' = {} /\ groups' = <<>>
                   [] Has(E, "type") -> /\ Say(r.bad \cup Bad(E.type \in JB!Kinds, "C20", "an unknown label", E.s)) /\ left' = lf
                                        /\ j' = [j EXCEPT !.kind = E.type, !.sub = ""]
                                        /\ groups' = IF E.type = "SUPPORT" THEN Append(groups, [kind |-> "SUPPORT", lines |-> <<>>]) ELSE groups
                   [] E.s \in {"BOTTOM-FILL", "TOP-FILL", "INTERNAL-FILL"} ->
                                        LET gk == CASE E.s = "BOTTOM-FILL" -> "BOTTOM" [] E.s = "TOP-FILL" -> "TOP" [] OTHER -> "INTERNAL" IN
                                        /\ Say(r.bad) /\ left' = lf /\ j' = [j EXCEPT !.sub = gk]
                                        /\ groups' = Append(groups, [kind |-> gk, lines |-> <<>>])
                   [] OTHER -> Say(r.bad) /\ left' = lf /\ UNCHANGED <<j, groups>>
              \* before the first layer the custom start G-code may have moved anywhere
              /\ m' = [m EXCEPT !.p = IF Has(E, "layer") /\ j.phase = "start" THEN [PR!Fresh EXCEPT !.e = m.p.e] ELSE @, !.run = <<>>, !.moved = @ /\ ~Filling, !.sum = IF Has(E, "layer") THEN 0 ELSE @, !.base = IF Has(E, "layer") THEN m.p.e + m.ret ELSE @]
           /\ UNCHANGED <<pl, rates>>
Command == /\ E.ev = "cmd" /\ ~JB!IsCustom(P, j, E)
           /\ LET r == JB!Command(P, j, E) IN Say(r.bad) /\ j' = r.j
           /\ m' = IF E.code = "G92" /\ Has(E, "reset") THEN [m EXCEPT !.p.e = 0, !.base = 0, !.sum = 0] ELSE m
           /\ Check(E.code # "G92" \/ Has(E, "reset"), "C20", E, l, "a command nobody asked for", E.s)
           /\ UNCHANGED <<pl, left, groups, skirts, rates>>
Raw == /\ E.ev = "raw" /\ ~JB!IsCustom(P, j, E)
       /\ Viol(IF j.phase = "layers" THEN "C03" ELSE "C18", E, l, "a line which is no G-code", E.s)
       /\ UNCHANGED <<pl, j, m, left, groups, skirts, rates>>
Move == /\ E.ev = "mv" /\ ~JB!IsCustom(P, j, E)
        /\ LET q == PR!Exec(m.p, E)
               kind == PR!Kind(m, q, "e" \in DOMAIN E)
               print == kind = "print"
               before == IF print THEN [take |-> 0, skirt |-> FALSE, bad |-> {}, clear |-> FALSE] ELSE Flush
               m1 == IF before.clear THEN [m EXCEPT !.run = <<>>] ELSE m
               s == PR!Step(m1, Context, E)
               jm == JB!Moved(P, j, print)
               after == IF print THEN Loop(s.m.run, FALSE) ELSE before
               filled == print /\ j.kind \in {"FILL", "SUPPORT"}
           IN /\ Say((IF j.phase = "layers" THEN s.bad ELSE {}) \cup jm.bad \cup after.bad
                     \cup (IF filled /\ (groups = <<>> \/ (j.kind = "FILL" /\ j.sub = "")) THEN Bad(FALSE, "C20", "something is filled without a label", E) ELSE {}))
              /\ j' = jm.j
              /\ m' = IF filled \/ (print /\ after.clear) THEN [s.m EXCEPT !.run = <<>>] ELSE s.m
              /\ left' = After(after)
              /\ skirts' = IF after.skirt THEN Append(skirts, IF print THEN s.m.run ELSE m.run) ELSE skirts
              /\ groups' = IF filled /\ groups # <<>> THEN [groups EXCEPT ![Len(groups)].lines = Append(@, <<PR!At(m.p), PR!At(q)>>)] ELSE groups
        /\ UNCHANGED <<pl, rates>>
Done == /\ E.ev = "done"
        /\ Say(JB!Finish(P, j))
        /\ UNCHANGED <<pl, j, m, left, groups, skirts, rates>>
\* complete runs only: the file is the G-code, the layers before the modifiers are judged by SliceTrace
File == /\ E.ev = "file" /\ Check(E.same, "C01", E, l, "the file is not exactly the generated G-code", E)
        /\ UNCHANGED <<pl, j, m, left, groups, skirts, rates>>
Skip == E.ev = "slice" /\ UNCHANGED <<pl, j, m, left, groups, skirts, rates>>
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack) /\ UNCHANGED <<pl, j, m, left, groups, skirts, rates>>

TInit == l = 1 /\ pl = 1 /\ j = JB!JobStart /\ m = PR!Start /\ left = {} /\ groups = <<>> /\ skirts = <<>> /\ rates = <<0, 0>>
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Plan \/ PlanOK \/ Custom \/ Comment \/ Command \/ Raw \/ Move \/ Done \/ File \/ Skip \/ Crash)
TSpec == TInit /\ [][TNext]_vars
=============================================================================
