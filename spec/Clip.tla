--------------------------------- MODULE Clip ---------------------------------
(* C08: areas and the operations on them (clip/clip.go).                        *)
(*                                                                              *)
(* A part is an area: an outline and holes in it.  Its meaning is a set of      *)
(* cells of a grid.  The operations work on two lists of parts, whose meaning   *)
(* is the union of the parts.  How the areas are computed is modelled too: all  *)
(* outlines and holes are counted per cell, outlines as +1 and holes as -1, and *)
(* a cell belongs to a list if the count is not zero.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cover(list) == UNION {list[i].out \ UNION list[i].holes : i \in 1..Len(list)}

(* the operations                                                               *)
Op(op, a, b) == CASE op = "difference" -> a \ b
                  [] op = "intersection" -> a \cap b
                  [] op = "union" -> a \cup b

RECURSIVE Count(_, _)
Count(list, c) == IF list = <<>> THEN 0
                  ELSE (IF c \in Head(list).out THEN 1 ELSE 0)
                       - Cardinality({h \in Head(list).holes : c \in h}) + Count(Tail(list), c)

(* the rule for what belongs to polygons which may contain each other           *)
EvenOdd(polys, c) == Cardinality({i \in 1..Len(polys) : c \in polys[i]}) % 2 = 1
TopLevel(outs) == {o \in outs : ~\E q \in outs : q # o /\ o \subseteq q}

CONSTANTS Shapes,     \* the parts which are used
          MaxA, MaxB
VARIABLES a, b,       \* the lists
          res         \* the results: [op |-> cells]
vars == <<a, b, res>>

Ops == {"difference", "intersection", "union"}
Init == a = <<>> /\ b = <<>> /\ res = <<>>
AddA == /\ Len(a) < MaxA /\ b = <<>> /\ res = <<>>
        /\ \E s \in Shapes : a' = Append(a, s)
        /\ UNCHANGED <<b, res>>
AddB == /\ Len(b) < MaxB /\ res = <<>>
        /\ \E s \in Shapes : b' = Append(b, s)
        /\ UNCHANGED <<a, res>>
Cells == UNION {s.out : s \in Shapes}
Winding(list) == {c \in Cells : Count(list, c) # 0}
Run == /\ res = <<>>
       /\ res' = [op \in Ops |-> Op(op, Winding(a), Winding(b))]
       /\ UNCHANGED <<a, b>>
Next == AddA \/ AddB \/ Run
Spec == Init /\ [][Next]_vars

(* counting gives exactly the union of the parts, however they overlap          *)
CountingIsUnion == Winding(a) = Cover(a) /\ Winding(b) = Cover(b)
NeverNegative == \A c \in Cells : Count(a, c) >= 0
ExactSets == res # <<>> =>
    /\ \A op \in Ops : res[op] = Op(op, Cover(a), Cover(b))
    /\ res["difference"] \cup res["intersection"] = Cover(a)
    /\ res["difference"] \cap res["intersection"] = {}
    /\ res["union"] = res["difference"] \cup Cover(b)
(* nothing already computed and no argument ever changes                        *)
Stable == [][(res # <<>> => res' = res) /\ (res' # res => a' = a /\ b' = b)]_vars
=============================================================================
