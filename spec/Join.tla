-------------------------------- MODULE Join --------------------------------
(* C07, joining of pieces (slicer/layer.go, makePolygons).                     *)
(*                                                                             *)
(* Contours which have no gap at all still arrive in pieces, wherever a height *)
(* meets corners of the mesh exactly: the faces which give the edges there do  *)
(* not touch each other.  The pieces may be much shorter than the distance     *)
(* over which pieces are joined, and another contour may be that near as well. *)
(* Nearest = FALSE: long pieces are preferred to near ones; AtEnd = FALSE: a   *)
(* contour is closed as soon as its ends are near enough.  Both lose pieces.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rings, JoinDist2, Nearest, AtEnd
VARIABLES pieces, \* open pieces: sequences of points
          cur,    \* the one which is being extended, <<>> if none
          closed  \* finished contours
vars == <<pieces, cur, closed>>

\* small contours, whose edges are of length 1 (the join distance is longer)
Square(x, y) == <<<<x, y>>, <<x + 1, y>>, <<x + 2, y>>, <<x + 2, y + 1>>, <<x + 2, y + 2>>, <<x + 1, y + 2>>, <<x, y + 2>>, <<x, y + 1>>>>
Contours == CASE Rings = 1 -> {Square(0, 0)} [] OTHER -> {Square(0, 0), Square(3, 1)}
Dist2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Last(p) == p[Len(p)]

At(r, i) == r[((i - 1) % Len(r)) + 1]
\* the contour cut at a non-empty set of its corners
RECURSIVE Upto(_, _, _)
Upto(r, cut, i) == IF ((i - 1) % Len(r)) + 1 \in cut THEN <<At(r, i)>> ELSE <<At(r, i)>> \o Upto(r, cut, i + 1)
Cuts(r, cut) == {<<r[i]>> \o Upto(r, cut, i + 1) : i \in cut}

Init == /\ closed = {} /\ cur = <<>>
        /\ \E f \in [Contours -> SUBSET (1..8)] :
              /\ \A c \in Contours : f[c] # {}
              /\ pieces = UNION {Cuts(c, f[c]) : c \in Contours}

Near(p) == {q \in pieces \ {p} : Dist2(Last(p), q[1]) <= JoinDist2}
\* (the real score is in micrometres: 10 of them for each point)
Score(p, q) == IF Nearest THEN Dist2(Last(p), q[1]) ELSE Dist2(Last(p), q[1]) - Len(q)
Best(p) == {q \in Near(p) : \A o \in Near(p) : Score(p, q) <= Score(p, o)}
Ends(p, rest) == /\ Dist2(Last(p), p[1]) <= JoinDist2
                 /\ AtEnd => \A o \in rest : Dist2(Last(p), p[1]) <= Dist2(Last(p), o[1])

Join(p) == \E q \in Best(p) :
    LET m == p \o q rest == pieces \ {p, q} IN
    IF Ends(m, rest) THEN pieces' = rest /\ closed' = closed \cup {m} /\ cur' = <<>>
                     ELSE pieces' = rest \cup {m} /\ UNCHANGED closed /\ cur' = m
\* one piece is extended as long as there is something near its end
Leave == cur # <<>> /\ Near(cur) = {} /\ cur' = <<>> /\ UNCHANGED <<pieces, closed>>
\* at last, what ends where it begins is closed
Close(p) == /\ \A o \in pieces : Near(o) = {}
            /\ p[1] = Last(p) /\ cur = <<>>
            /\ pieces' = pieces \ {p} /\ closed' = closed \cup {p} /\ UNCHANGED cur
Next == Leave \/ \E p \in pieces : (cur \in {<<>>, p} /\ Near(p) # {} /\ Join(p)) \/ Close(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* The outcome: all edges of all contours.  An edge which is there in both
\* directions encloses nothing: two contours joined by it are still two.
Edges(p) == {<<At(p, i), At(p, i + 1)>> : i \in 1..Len(p)} 
Proper(es) == {e \in es : e[1] # e[2] /\ <<e[2], e[1]>> \notin es}
Found == Proper(UNION {Edges(p) : p \in closed})
Right == (~ENABLED Next) => pieces = {} /\ Found = UNION {Edges(c) : c \in Contours}
=============================================================================
