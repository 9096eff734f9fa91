-------------------------------- MODULE Layers --------------------------------
(* C06: the layer stack (slicer/slicer.go, Slice).                             *)
(*                                                                             *)
(* The solid is abstracted to vertical spans <<lo, hi>>; each is given by the  *)
(* faces of its sides.  Faces are sliced in any order; slicing a face adds     *)
(* the span to every layer whose height the face reaches.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* the height of layer k (from 0), the number of layers of a model with that top *)
ZOf(init, th, k) == init + k * th
CountOf(init, th, top) == LET n == IF top >= init THEN (top - init) \div th + 1 ELSE 0
                          IN IF n < 1 THEN 1 ELSE n
(* material at z: the lower end of a span does not count, the upper end does   *)
Reaches(span, z) == span[1] < z /\ z <= span[2]

CONSTANTS MaxZ, Inits, Ths, MaxSpans
VARIABLES init, th, todo, spans, layers
vars == <<init, th, todo, spans, layers>>

AllSpans == {s \in (-1..MaxZ) \X (0..MaxZ) : s[1] < s[2]}
Top(ss) == CHOOSE t \in {s[2] : s \in ss} : \A s \in ss : s[2] <= t

Init == /\ init \in Inits /\ th \in Ths
        /\ \E f \in [1..MaxSpans -> AllSpans] : spans = {f[i] : i \in 1..MaxSpans}
        /\ todo = spans
        /\ layers = [k \in 0..CountOf(init, th, Top(spans)) - 1 |-> {}]
SliceSpan(s) == /\ s \in todo
                /\ todo' = todo \ {s}
                /\ layers' = [k \in DOMAIN layers |-> IF Reaches(s, ZOf(init, th, k)) THEN layers[k] \cup {s} ELSE layers[k]]
                /\ UNCHANGED <<init, th, spans>>
Next == \E s \in AllSpans : SliceSpan(s)
Spec == Init /\ [][Next]_vars

(* C06: every height which is not above the top has its layer, at the right    *)
(* place, and no other height has one (but there always is a first layer)      *)
EveryHeight == \A k \in 0..(2 * MaxZ) :
    (k \in DOMAIN layers) <=> (k = 0 \/ ZOf(init, th, k) <= Top(spans))
Filled == todo = {} => \A k \in DOMAIN layers : layers[k] = {s \in spans : Reaches(s, ZOf(init, th, k))}
(* nothing below the top is lost: the uncovered rest is less than one layer    *)
NothingLost == Top(spans) < ZOf(init, th, Cardinality(DOMAIN layers))
ASSUME \A i \in Inits, t \in Ths : i > 0 /\ t > 0
=============================================================================
