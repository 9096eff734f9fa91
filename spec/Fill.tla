--------------------------------- MODULE Fill ---------------------------------
(* C14: filling an area with parallel lines (clip/linear.go).                    *)
(*                                                                               *)
(* The area is a set of cells.  On each column which belongs to the raster the   *)
(* lines are the maximal runs of cells of the area.  They are put in an order    *)
(* by going on with the line whose end (on the side where the last line ended)   *)
(* is nearest, alternating the direction; where the way from one line to the     *)
(* next one is short and inside of the area it becomes a connecting line.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x

(* the lines of a column: <<x, from, to>>                                         *)
Runs(area, x) == {r \in {<<x, a, b>> : a \in {c[2] : c \in area}, b \in {c[2] : c \in area}} :
    /\ r[2] <= r[3]
    /\ \A y \in r[2]..r[3] : <<x, y>> \in area
    /\ <<x, r[2] - 1>> \notin area /\ <<x, r[3] + 1>> \notin area}
OnRaster(x, x0, d) == (x - x0) % d = 0
Lines(area, x0, d) == UNION {Runs(area, x) : x \in {y \in {c[1] : c \in area} : OnRaster(y, x0, d)}}

(* which direction the lines of a layer have, in degrees                          *)
Direction(degree, rectlinear, layer) == IF rectlinear /\ layer % 2 = 0 THEN degree + 90 ELSE degree

CONSTANTS W, H, Dist, Limit
VARIABLES area, left, done, side
vars == <<area, left, done, side>>
Grid == (0..W - 1) \X (0..H - 1)
Init == area \in SUBSET Grid /\ left = Lines(area, 0, Dist) /\ done = <<>> /\ side = 0
(* the end of a line on a side                                                     *)
At(ln, s) == <<ln[1], IF s = 0 THEN ln[2] ELSE ln[3]>>
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
(* cells a connection runs through (between two columns)                           *)
Free(p, q) == \A x \in p[1]..q[1] : \A y \in 0..H - 1 :
                 (y >= p[2] /\ y <= q[2]) \/ (y >= q[2] /\ y <= p[2]) => <<x, y>> \in area
Start == /\ done = <<>> /\ left # {}
         /\ \E ln \in left : done' = <<[kind |-> "line", ln |-> ln, from |-> 0]>> /\ left' = left \ {ln}
         /\ side' = 1 /\ UNCHANGED area
Last == done[Len(done)]
(* after a line the print is at its end on side `side`                             *)
Go == /\ done # <<>> /\ left # {}
      /\ LET p == At(Last.ln, side) IN
         \E ln \in left :
            /\ \A m \in left : D2(p, At(ln, side)) <= D2(p, At(m, side))
            /\ LET q == At(ln, side)
                   con == IF D2(p, q) <= Limit * Limit /\ Free(p, q) THEN <<[kind |-> "connection", ln |-> <<p, q>>, from |-> 0]>> ELSE <<>>
               IN done' = done \o con \o <<[kind |-> "line", ln |-> ln, from |-> side]>>
            /\ left' = left \ {ln} /\ side' = 1 - side /\ UNCHANGED area
Next == Start \/ Go
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Printed == {done[i].ln : i \in {i \in 1..Len(done) : done[i].kind = "line"}}
ExactlyOnce == /\ left \cup Printed = Lines(area, 0, Dist) /\ left \cap Printed = {}
               /\ Cardinality(Printed) = Cardinality({i \in 1..Len(done) : done[i].kind = "line"})
Connected == \A i \in 1..Len(done) : done[i].kind = "connection" =>
    /\ i > 1 /\ i < Len(done) /\ done[i - 1].kind = "line" /\ done[i + 1].kind = "line"
    /\ At(done[i - 1].ln, 1 - done[i - 1].from) = done[i].ln[1]
    /\ At(done[i + 1].ln, done[i + 1].from) = done[i].ln[2]
Alternating == \A i, j \in 1..Len(done) : (i < j /\ done[i].kind = "line" /\ done[j].kind = "line"
                    /\ \A k \in i + 1..j - 1 : done[k].kind # "line") => done[i].from # done[j].from
Ends == <>(left = {})
=============================================================================
