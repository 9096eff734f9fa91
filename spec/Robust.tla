------------------------------- MODULE Robust -------------------------------
(* One run from the model to the G-code, for any option values: every loop of   *)
(* the way ends, and what comes out is an error or complete.  The small integers *)
(* stand for zero, negative and usual values.  Guarded = FALSE leaves out the    *)
(* checks of the values (then loops do not end or layers get lost).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Guarded, MaxH
VARIABLES o,      \* options
          mesh,   \* faces: number of usable ones, h: where the top is, full: layers with something in it
          at,     \* the step
          k, x,   \* layer, and position within it
          layers, \* what the slicer made: the content of the layers
          out,    \* the G-code
          res     \* "", "error" or "done"
vars == <<o, mesh, at, k, x, layers, out, res>>
Small == {-1, 0, 1, 2}
Options == [th : Small, th0 : Small, insets : {0, 1}, ew : {0, 1}, dist : Small, sup : BOOLEAN, gap : {-1, 0, 2}]
Meshes == [faces : 0..1, h : -1..MaxH, full : SUBSET (0..1)]
Fail == res' = "error" /\ UNCHANGED <<o, mesh, at, k, x, layers, out>>
Go(step) == at' = step /\ k' = 0 /\ x' = 0
\* the number of layers: the first one has a thickness of its own
Count(h, th0, th) == IF h < th0 THEN 1 ELSE (h - th0) \div th + 1
Init == /\ o \in Options /\ mesh \in Meshes /\ at = "read" /\ k = 0 /\ x = 0 /\ layers = <<>> /\ out = <<>> /\ res = ""
Read == /\ at = "read"
        /\ IF mesh.faces = 0 THEN Fail ELSE Go("slice") /\ UNCHANGED <<o, mesh, layers, out, res>>
\* goes up layer by layer
Slice == /\ at = "slice"
         /\ IF Guarded /\ o.th < 1 THEN Fail
            ELSE IF k = 0 \/ x + o.th <= mesh.h
                 THEN /\ layers' = Append(layers, k \in mesh.full) /\ k' = k + 1 /\ x' = (IF k = 0 THEN o.th0 ELSE x + o.th)
                      /\ UNCHANGED <<o, mesh, at, out, res>>
                 ELSE Go("walls") /\ UNCHANGED <<o, mesh, layers, out, res>>
\* walls from outside to inside
Walls == /\ at = "walls"
         /\ IF Guarded /\ (o.insets < 1 \/ o.ew < 1) THEN Fail
            ELSE IF k < Len(layers) THEN k' = k + 1 /\ UNCHANGED <<o, mesh, at, x, layers, out, res>>
            ELSE Go("support") /\ UNCHANGED <<o, mesh, layers, out, res>>
\* the support of a layer is written down gap layers below
Support == /\ at = "support"
           /\ IF ~o.sup THEN Go("print") /\ UNCHANGED <<o, mesh, layers, out, res>>
              ELSE IF Guarded /\ o.gap < 0 THEN Fail
              ELSE IF k + 1 < Len(layers)
                   THEN /\ Assert(k < o.gap \/ k - o.gap \in 0..(Len(layers) - 1), "there is no such layer")
                        /\ k' = k + 1 /\ UNCHANGED <<o, mesh, at, x, layers, out, res>>
                   ELSE Go("print") /\ UNCHANGED <<o, mesh, layers, out, res>>
\* the raster of a layer with something in it is three steps wide
Printing == /\ at = "print"
         /\ IF k = Len(layers) THEN /\ out' = Append(out, "end") /\ res' = "done" /\ UNCHANGED <<o, mesh, at, k, x, layers>>
            ELSE IF layers[k + 1] /\ x = 0 /\ Guarded /\ o.dist < 1 THEN Fail
            ELSE IF layers[k + 1] /\ x < 3 THEN x' = (IF x + o.dist < 0 THEN 0 ELSE x + o.dist) /\ UNCHANGED <<o, mesh, at, k, layers, out, res>>
            ELSE /\ out' = out \o (IF k = 0 THEN <<"start">> ELSE <<>>) \o <<ToString(k)>>
                 /\ k' = k + 1 /\ x' = 0 /\ UNCHANGED <<o, mesh, at, layers, res>>
Next == res = "" /\ (Read \/ Slice \/ Walls \/ Support \/ Printing)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Wanted == <<"start">> \o [i \in 1..Count(mesh.h, o.th0, o.th) |-> ToString(i - 1)] \o <<"end">>
Complete == res = "done" => out = Wanted
\* without a reason there is no error
Usual == o.th >= 1 /\ o.insets >= 1 /\ o.ew >= 1 /\ o.dist >= 1 /\ o.gap >= 0 /\ mesh.faces > 0
NoExcuse == Usual => res # "error"
Ends == <>(res # "")
=============================================================================
