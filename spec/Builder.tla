------------------------------- MODULE Builder -------------------------------
(* How paths and moves become G-code: commands state only what changes, the   *)
(* builder remembers what the printer already knows.  The printer executes    *)
(* the commands, the monitor of Printer judges every one of them.             *)
EXTENDS Printer, TLC

CONSTANTS Places,        \* 1..Places, place i is the point Point(i)
          Heights, MoveSpeeds, PrintSpeeds, Overrides, Retractions, Hops, MaxOps
Point(i) == <<(i % 2) * 3000, (i \div 2) * 4000>>
\* the last place lies outside of the parts of the layer
Crosses(a, b) == a # b /\ (a = Places - 1 \/ b = Places - 1)
Amount == 20000
RSpeed == 1200

VARIABLES set,      \* the settings
          b,        \* what the builder remembers
          todo,     \* moves which are still to be stated for the current operation
          m, c,     \* printer and what is wanted at this place
          bad,      \* broken laws
          where,    \* the place of the nozzle, as asked for
          ops       \* what has been done
vars == <<set, b, todo, m, c, bad, where, ops>>

Th == 200  Width == 400
R == Rate(Th, Width, 100, 1750)
PrintSpeed == IF set.over > 0 THEN set.over ELSE set.print
Context(z, judged) == [move |-> set.move, print |-> PrintSpeed, rspeed |-> RSpeed, rlen |-> set.rlen, hop |-> set.hop, z |-> z,
                       rate |-> R, judged |-> judged, must |-> set.rlen > 0]

Init == /\ set \in [move : MoveSpeeds, print : PrintSpeeds, over : {0}, rlen : Retractions, hop : Hops]
        /\ b = [pos |-> <<0, 0, 0>>, seen |-> FALSE, speed |-> 0, e |-> 0]
        /\ todo = <<>> /\ m = [Start EXCEPT !.p.e = 0] /\ bad = {} /\ where = 0 /\ ops = <<>>
        /\ c = Context(0, FALSE)

\* one move is stated
Stated(t) == LET d == t.p IN
    [s \in {"x"} |-> d[1]] @@ [s \in {"y"} |-> d[2]] @@ [s \in {"z"} |-> d[3]] @@ [s \in {"f"} |-> t.s] @@ [s \in {"e"} |-> b.e + t.e]
Needed(t) == {k \in {"x", "y", "z"} : ~b.seen \/ b.pos[CASE k = "x" -> 1 [] k = "y" -> 2 [] k = "z" -> 3] # t.p[CASE k = "x" -> 1 [] k = "y" -> 2 [] k = "z" -> 3]}
             \cup (IF b.speed # t.s THEN {"f"} ELSE {}) \cup (IF t.e # 0 THEN {"e"} ELSE {})
Emit == /\ todo # <<>>
        /\ LET t == Head(todo)
               all == Stated(t)
               cmd == [k \in Needed(t) \cup {"cr"} |-> IF k = "cr" THEN t.cr ELSE all[k]]
               skip == b.seen /\ b.pos = t.p /\ t.e = 0
               r == Step(m, c, cmd)
           IN IF skip THEN UNCHANGED <<b, m, bad>>
              ELSE /\ b' = [pos |-> t.p, seen |-> TRUE, speed |-> t.s, e |-> b.e + t.e]
                   /\ m' = r.m /\ bad' = bad \cup r.bad
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<set, c, where, ops>>

Mv(pt, z, e, s, cr) == [p |-> <<pt[1], pt[2], z>>, e |-> e, s |-> s, cr |-> cr]
Vol(i, j) == Filament(Dist(Point(i), Point(j)), R) \div 100
RECURSIVE Lines(_, _, _)
Lines(path, i, z) == IF i >= Len(path) THEN <<>>
                     ELSE <<Mv(Point(path[i + 1]), z, Vol(path[i], path[i + 1]), PrintSpeed, 0)>> \o Lines(path, i + 1, z)
\* the way to a path, then the path
PathMoves(path, z, judged, closed) ==
    LET crossing == judged /\ set.rlen > 0 /\ b.seen /\ Crosses(where, path[1])
        cr == IF Crosses(where, path[1]) THEN 1 ELSE 0
        up == IF crossing THEN z + set.hop ELSE z
        here == <<b.pos[1], b.pos[2]>>
        to == Point(path[1])
    IN (IF crossing THEN <<Mv(here, b.pos[3], -set.rlen, RSpeed, 0)>> ELSE <<>>)
       \o (IF crossing /\ set.hop > 0 THEN <<Mv(here, up, 0, set.move, 0)>> ELSE <<>>)
       \o <<Mv(to, up, 0, set.move, cr)>>
       \o (IF crossing /\ set.hop > 0 THEN <<Mv(to, z, 0, set.move, 0)>> ELSE <<>>)
       \o (IF crossing THEN <<Mv(to, z, set.rlen, RSpeed, 0)>> ELSE <<>>)
       \o Lines(IF closed THEN Append(path, path[1]) ELSE path, 1, z)

Can == todo = <<>> /\ Len(ops) < MaxOps
Path == /\ Can
        /\ \E p, q \in 0..Places - 1, z \in Heights, judged, closed \in BOOLEAN :
             /\ p # q
             /\ c' = Context(z, judged)
             /\ todo' = PathMoves(<<p, q>>, z, judged, closed)
             /\ where' = IF closed THEN p ELSE q
             /\ ops' = Append(ops, [op |-> "path", pts |-> <<p, q>>, z |-> z, judged |-> judged, closed |-> closed])
        /\ m' = [m EXCEPT !.run = <<>>]
        /\ UNCHANGED <<set, b, bad>>
Speeds == /\ Can
          /\ \/ \E s \in MoveSpeeds \ {set.move} : set' = [set EXCEPT !.move = s] /\ ops' = Append(ops, [op |-> "move", s |-> s])
             \/ \E s \in PrintSpeeds \ {set.print} : set' = [set EXCEPT !.print = s] /\ ops' = Append(ops, [op |-> "print", s |-> s])
             \/ \E s \in Overrides \ {set.over} : set' = [set EXCEPT !.over = s] /\ ops' = Append(ops, [op |-> "over", s |-> s])
          /\ UNCHANGED <<b, todo, m, c, bad, where>>
Next == Emit \/ Path \/ Speeds
Spec == Init /\ [][Next]_vars /\ WF_vars(Emit)

(* ---- what has to hold --------------------------------------------------------*)
NoLawBroken == bad = {}
\* the printer is where the builder believes it to be
InStep == b.seen => /\ <<m.p.x, m.p.y, m.p.z>> = b.pos /\ m.p.e = b.e /\ m.p.f = b.speed
\* nothing is left retracted or lifted when an operation is finished
Settled == todo = <<>> /\ b.seen => m.ret = 0 /\ m.p.z = c.z /\ At(m.p) = Point(where)
\* the last path was printed as asked for
Printed == todo = <<>> /\ ops # <<>> /\ ops[Len(ops)].op = "path"
           => LET o == ops[Len(ops)] IN VisitsPath(m.run, [i \in 1..Len(o.pts) |-> Point(o.pts[i])], o.closed)
Volume == SumOK(m)
Ends == todo # <<>> ~> todo = <<>>
=============================================================================
