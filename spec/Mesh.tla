--------------------------------- MODULE Mesh ---------------------------------
(* C04, C05: building the optimised mesh (optimizer/optimizer.go).             *)
(*                                                                             *)
(* Faces are taken in order.  Each corner is either melded into a point which  *)
(* is already known and not farther away than the meld distance, or becomes a  *)
(* new point.  Which near point is taken (or whether it is) is left open, but  *)
(* two identical points are always one.  A face with two corners melded        *)
(* together, or with the same three corners as an earlier one, is left out.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
(* a and b are at most d apart; guarded, as TLC integers have 32 bits          *)
Near(a, b, d) ==
    LET x == Abs(a[1] - b[1])
        y == Abs(a[2] - b[2])
        z == Abs(a[3] - b[3])
    IN x <= d /\ y <= d /\ z <= d /\ x * x + y * y + z * z <= d * d

(* what a corner at c may become, given the known points                       *)
Choices(c, pts, meld) == {p \in pts : Near(p, c, meld)} \cup {c}

Corners(t) == {t[1], t[2], t[3]}
Degenerate(t) == Cardinality(Corners(t)) < 3
Dropped(t, faces) == Degenerate(t) \/ \E k \in 1..Len(faces) : Corners(faces[k]) = Corners(t)

(* the action, on a state [pts |-> known points, faces |-> kept faces]:        *)
(* all states adding the face f may lead to                                    *)
AddFace(s, f, meld) ==
    UNION { LET p1 == s.pts \cup {a} IN
      UNION { LET p2 == p1 \cup {b} IN
        { LET t == <<a, b, c>>
          IN [pts |-> p2 \cup {c},
              faces |-> IF Dropped(t, s.faces) THEN s.faces ELSE Append(s.faces, t)]
          : c \in Choices(f[3], p2, meld)}
      : b \in Choices(f[2], p1, meld)}
    : a \in Choices(f[1], s.pts, meld)}

(* the neighbours of face k at its edge j                                      *)
EdgeOf(t, j) == {t[j], t[(j % 3) + 1]}
Others(faces, k, j) == {n \in 1..Len(faces) : n # k /\ EdgeOf(faces[k], j) \subseteq Corners(faces[n])}

(* placement: what is subtracted from every point                              *)
Mid(lo, hi) == (lo + hi) \div 2
CoordsOf(fs, a) == {fs[k][j][a] : k \in 1..Len(fs), j \in 1..3}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

(* ---- design model ---------------------------------------------------------*)
CONSTANTS PointSet, MaxFaces, Meld
VARIABLES mesh, input
vars == <<mesh, input>>

Init == mesh = [pts |-> {}, faces |-> <<>>] /\ input = <<>>
Next == /\ Len(input) < MaxFaces
        /\ \E a, b, c \in PointSet :
             /\ input' = Append(input, <<a, b, c>>)
             /\ mesh' \in AddFace(mesh, <<a, b, c>>, Meld)
Spec == Init /\ [][Next]_vars

NoDegenerate == \A k \in 1..Len(mesh.faces) : ~Degenerate(mesh.faces[k])
NoDuplicate == \A a, b \in 1..Len(mesh.faces) : a # b => Corners(mesh.faces[a]) # Corners(mesh.faces[b])
(* every kept face comes from an input face, in order, moved by at most Meld   *)
RECURSIVE Embeds(_, _, _, _)
Embeds(out, k, in, i) ==
    \/ k > Len(out)
    \/ /\ i <= Len(in)
       /\ \/ (\A j \in 1..3 : Near(out[k][j], in[i][j], Meld)) /\ Embeds(out, k + 1, in, i + 1)
          \/ Embeds(out, k, in, i + 1)
InOrder == Embeds(mesh.faces, 1, input, 1)
(* nothing is lost which is not degenerate or a duplicate even without melding *)
SpreadOut == \A a, b \in PointSet : a # b => ~Near(a, b, Meld)
NothingLost ==
    SpreadOut => \A i \in 1..Len(input) :
        Degenerate(input[i]) \/ \E k \in 1..Len(mesh.faces) : Corners(mesh.faces[k]) = Corners(input[i])
(* C05: being a neighbour at an edge is mutual, and a watertight input (each   *)
(* edge of a kept face belongs to another one) has no open edge                *)
Mutual ==
    \A k \in 1..Len(mesh.faces) : \A j \in 1..3 : \A n \in Others(mesh.faces, k, j) :
        \E i \in 1..3 : k \in Others(mesh.faces, n, i)
Watertight(fs) ==
    \A k \in 1..Len(fs) : \A j \in 1..3 :
        Degenerate(fs[k]) \/ \E n \in 1..Len(fs) : Corners(fs[n]) # Corners(fs[k]) /\ ~Degenerate(fs[n]) /\ EdgeOf(fs[k], j) \subseteq Corners(fs[n])
StaysWatertight ==
    (SpreadOut /\ Watertight(input)) => \A k \in 1..Len(mesh.faces) : \A j \in 1..3 : Others(mesh.faces, k, j) # {}
=============================================================================
