------------------------------- MODULE Printer -------------------------------
(* A printer executing G-code, and the laws every single move has to obey.    *)
(* Used by the design models (Builder, Job) and by the trace specifications   *)
(* (BuilderTrace, PrintTrace).                                                *)
(*                                                                            *)
(* Positions are in micrometres, E in units of 0.1 micrometre of filament     *)
(* (4 decimals of a millimetre), feed rates in mm/min.                         *)
EXTENDS Geo

Unknown == 999999999
Fresh == [x |-> Unknown, y |-> Unknown, z |-> Unknown, f |-> Unknown, e |-> Unknown]
Get(cmd, f, old) == IF f \in DOMAIN cmd THEN cmd[f] ELSE old
(* coordinates which are left out keep their value                             *)
Exec(p, cmd) == [x |-> Get(cmd, "x", p.x), y |-> Get(cmd, "y", p.y), z |-> Get(cmd, "z", p.z),
                 f |-> Get(cmd, "f", p.f), e |-> Get(cmd, "e", p.e)]
At(p) == <<p.x, p.y>>
Known(p) == p.x # Unknown /\ p.y # Unknown /\ p.z # Unknown

(* ---- how much filament -------------------------------------------------------*)
\* digits of num / den in base 100: num * 100^n \div den without leaving 32 bits
RECURSIVE Scaled(_, _, _)
Scaled(num, den, n) == IF n = 0 THEN num \div den
                       ELSE (num \div den) * (100 ^ n) + Scaled((num % den) * 100, den, n - 1)
\* millionths: filament length per path length
FilamentArea(d) == (((d * d) \div 4) * 355) \div 113
Rate(th, width, mult, d) == Scaled((th * width * mult) \div 100, FilamentArea(d), 3)
\* filament for len micrometres, in 1e-6 mm
Filament(len, rate) == (len \div 100) * (rate \div 10) + ((len \div 100) * (rate % 10)) \div 10 + ((len % 100) * rate) \div 1000
Dist(a, b) == ISqrt(Len2(a, b))

(* ---- the monitor ---------------------------------------------------------------
   m: p      the printer
      ret    how much is retracted at the moment (E units)
      moved  has travelled since the last time something was extruded
      run    the points of the path which is being printed
      sum    filament asked for so far (1e-6 mm), base: E when this was zero
   c: move, print, rspeed   the feed rates which are configured for this place
      rlen, hop             retraction
      z                     the height of the path
      rate                  filament per length
      judged                is this a path for which travels are judged
      must                  retraction is enabled
      lost                  (if given) paths may be too short to be seen             *)
Start == [p |-> Fresh, ret |-> 0, moved |-> FALSE, run |-> <<>>, sum |-> 0, base |-> 0]
Bad(ok, prop, why, info) == IF ok THEN {} ELSE {[prop |-> prop, why |-> why, info |-> info]}

\* E values have 4 decimals, positions 2: a length is known to about 15 micrometres
ETol(c, exp) == 3 + exp \div 2000 + (16 * c.rate) \div 100000
Same(a, b) == Abs(a - b) <= 1
HeightTol == 6

\* a stated E which does not change is a print which is too short to be seen
Kind(m, q, stated) == LET d == q.e - m.p.e
                  shift == q.x # m.p.x \/ q.y # m.p.y
              IN IF (q.e = m.p.e /\ ~stated) \/ (m.p.e = Unknown /\ q.e = Unknown) THEN "travel"
                 ELSE IF d < 0 THEN "retract"
                 ELSE IF ~shift /\ m.ret > 0 THEN "restore" ELSE "print"

\* stated: the command states a place in the plane (which may be nearer than what can be stated)
\* cr: does the straight way of this travel leave the parts of the layer: 0 no, 1 yes, 2 not certain
StepTravel(m, c, q, cr, stated) ==
    LET shift == Known(m.p) /\ (q.x # m.p.x \/ q.y # m.p.y)
        info == [from |-> m.p, to |-> q, retracted |-> m.ret]
    IN [m |-> [m EXCEPT !.p = q, !.moved = @ \/ stated, !.run = IF q.x # m.p.x \/ q.y # m.p.y THEN <<>> ELSE @],
        bad |-> Bad(~(q.x # m.p.x \/ q.y # m.p.y \/ q.z # m.p.z) \/ Same(q.f, c.move), "C17", "a travel move does not run at the move speed", info)
                \cup (IF shift /\ c.judged
                      THEN Bad(~(cr = 1 /\ c.must /\ m.ret = 0), "C16", "a travel leaves the parts without a retraction", info)
                           \cup Bad(~(cr = 0 /\ m.ret > 0), "C16", "a retraction for a travel inside of a part", info)
                           \cup Bad(~(cr = 0 /\ (Abs(q.z - c.z) > HeightTol)), "C16", "lifted for a travel inside of a part", info)
                           \cup Bad(~(cr = 1 /\ c.must /\ c.hop > 0 /\ (Abs(m.p.z - c.z - c.hop) > HeightTol \/ Abs(q.z - c.z - c.hop) > HeightTol)),
                                    "C16", "not lifted by the z-hop for the whole travel", info)
                           \cup Bad(~(cr = 1 /\ (~c.must \/ c.hop = 0) /\ Abs(q.z - c.z) > HeightTol), "C16", "lifted without a z-hop being configured", info)
                      ELSE {})]
StepRetract(m, c, q) ==
    LET info == [from |-> m.p, to |-> q, retracted |-> m.ret] IN
    [m |-> [m EXCEPT !.p = q, !.ret = @ + (m.p.e - q.e), !.run = <<>>],
     bad |-> Bad(c.must, "C16", "a retraction although it is not enabled", info)
             \cup Bad(c.judged, "C16", "a retraction for a path which is not of the model, infill or support", info)
             \cup Bad(m.ret = 0, "C16", "retracted twice", info)
             \cup Bad(~m.moved \/ Get(c, "lost", FALSE), "C16", "the retraction does not come before the travel", info)
             \cup Bad(Abs((m.p.e - q.e) - c.rlen) <= 2, "C16", "not retracted by the configured length", info)
             \cup Bad(q.x = m.p.x /\ q.y = m.p.y /\ q.z = m.p.z, "C16", "moves while retracting", info)
             \cup Bad(Same(q.f, c.rspeed), "C17", "a retraction does not run at the retraction speed", info)]
StepRestore(m, c, q) ==
    LET info == [from |-> m.p, to |-> q, retracted |-> m.ret] IN
    [m |-> [m EXCEPT !.p = q, !.ret = 0],
     bad |-> Bad(Abs((q.e - m.p.e) - m.ret) <= 2, "C15", "a retraction is not given back in full", info)
             \cup Bad(m.moved, "C16", "given back before the travel", info)
             \cup Bad(q.z = m.p.z /\ Abs(q.z - c.z) <= HeightTol, "C16", "given back before the nozzle is put back down", info)
             \cup Bad(Same(q.f, c.rspeed), "C17", "a retraction is not given back at the retraction speed", info)]
StepPrint(m, c, q) ==
    LET info == [from |-> m.p, to |-> q, retracted |-> m.ret]
        known == Known(m.p) /\ m.p.e # Unknown
        len == IF known THEN Dist(At(m.p), At(q)) ELSE 0
        micro == Filament(len, c.rate)
        exp == micro \div 100
    IN [m |-> [m EXCEPT !.p = q, !.ret = 0, !.moved = FALSE,
                        !.run = IF @ = <<>> THEN <<At(m.p), At(q)>> ELSE Append(@, At(q)),
                        !.sum = @ + micro],
        bad |-> Bad(known, "C20", "prints from an unknown position", info)
                \cup Bad(m.ret = 0, "C16", "prints while the filament is retracted", info)
                \cup Bad(~known \/ Abs((q.e - m.p.e) - exp) <= ETol(c, exp), "C15", "extruded filament is not the volume of the move",
                         [len |-> len, expected |-> exp, got |-> q.e - m.p.e, at |-> q])
                \cup Bad(Same(q.f, c.print), "C17", "a printing move does not run at its speed", [speed |-> c.print, move |-> info])
                \cup Bad(~known \/ (Abs(q.z - c.z) <= HeightTol /\ Abs(m.p.z - c.z) <= HeightTol), "C20", "prints at a wrong height", [z |-> c.z, move |-> info])]
Step(m, c, cmd) ==
    LET q == Exec(m.p, cmd)
        k == Kind(m, q, "e" \in DOMAIN cmd)
    IN CASE k = "travel"  -> StepTravel(m, c, q, Get(cmd, "cr", 2), "x" \in DOMAIN cmd \/ "y" \in DOMAIN cmd)
         [] k = "retract" -> StepRetract(m, c, q)
         [] k = "restore" -> StepRestore(m, c, q)
         [] k = "print"   -> StepPrint(m, c, q)
\* the filament of everything printed so far
SumOK(m) == m.p.e = Unknown \/ Abs((m.p.e + m.ret - m.base) - m.sum \div 100) <= 40 + m.sum \div 25000

(* ---- which path was it -----------------------------------------------------------*)
PTol == 7
RECURSIVE Find(_, _, _)
Find(p, path, i) == IF i > Len(path) THEN 0 ELSE IF Close(p, path[i], PTol) THEN i ELSE Find(p, path, i + 1)
\* all points of the path from i to j (which have been dropped by the smoothing) are near to the printed move a-b
RECURSIVE Dropped(_, _, _, _, _)
Dropped(path, i, j, a, b) == IF i > j THEN TRUE ELSE NearSeg(path[i], a, b, 18) /\ Dropped(path, i + 1, j, a, b)
RECURSIVE Visits(_, _, _, _)
Visits(run, n, path, i) ==
    IF n > Len(run) THEN i > Len(path)
    ELSE LET k == Find(run[n], path, i) IN
         k # 0 /\ (n = 1 => k = 1) /\ (n = 1 \/ Dropped(path, i, k - 1, run[n - 1], run[n])) /\ Visits(run, n + 1, path, k + 1)
\* points which are too near to each other to be told apart: only where the path leads is judged
Tiny(path) == \E i \in 1..Len(path) - 1 : Close(path[i], path[i + 1], 30)
NearTrack(p, s) == \E i \in 1..Len(s) - 1 : NearSeg(p, s[i], s[i + 1], 25)
SameTrack(run, path) == /\ \A i \in 1..Len(run) : NearTrack(run[i], path)
                        /\ \A i \in 1..Len(path) : NearTrack(path[i], run)
                        /\ Close(run[1], path[1], PTol) /\ Close(run[Len(run)], path[Len(path)], PTol)
\* run visits the points of the path in order (leaving out what the smoothing drops), closed means that it ends where it began
VisitsPath(run, path, closed) ==
    /\ Len(run) > 1
    /\ IF closed THEN /\ Close(run[1], run[Len(run)], 0)
                      /\ Visits(SubSeq(run, 1, Len(run) - 1), 1, path, 1) \/ (Tiny(path) /\ SameTrack(run, Append(path, path[1])))
       ELSE Visits(run, 1, path, 1) \/ (Tiny(path) /\ SameTrack(run, path))
=============================================================================
