------------------------------- MODULE Region -------------------------------
(* The areas of the layers and how the passes over the layer stack derive    *)
(* them: perimeters, solid bottom and top areas, sparse infill, brim and     *)
(* support.  This module has no metric: a place is a cell, widths do not     *)
(* matter, growing an area adds the neighbouring cells (or nothing).         *)
(*                                                                            *)
(* The passes are written the way the modifiers do them (layer by layer, with *)
(* unions and early ends of loops); the invariants state the meaning of the   *)
(* result per place.                                                          *)
EXTENDS Integers, FiniteSets, Sequences

(* ------- what the result has to mean, for any predicate "is material" ------ *)
\* In(j): the place belongs to the model on layer j (layers are 0..n-1)
IsBottom(In(_), k, nb) == \E j \in 1..nb : k - j < 0 \/ ~In(k - j)
IsTop(In(_), k, nt, n) == \E j \in 1..nt : k + j >= n \/ ~In(k + j)

CONSTANTS N, Places, Near(_), BottomCounts, TopCounts, GapCounts, InterfaceCounts, Reach
Layer == 0..N - 1
Grow(S, r) == IF r = 0 THEN S ELSE S \cup UNION {Near(c) : c \in S}

VARIABLES P,        \* the model: layer -> places
          nb, nt, gap, il,    \* number of bottom, top, gap and interface layers
          pct,      \* is there any sparse infill
          phase, k, \* which pass is at which layer
          bottom, top, sparse, brim, need, full, iface, normal, last
vars == <<P, nb, nt, gap, il, pct, phase, k, bottom, top, sparse, brim, need, full, iface, normal, last>>

None == [i \in Layer |-> {}]
Init == /\ P \in [Layer -> SUBSET Places]
        /\ nb \in BottomCounts /\ nt \in TopCounts /\ gap \in GapCounts /\ il \in InterfaceCounts /\ pct \in BOOLEAN
        /\ phase = "solid" /\ k = 0
        /\ bottom = None /\ top = None /\ sparse = None /\ brim = {} /\ need = None
        /\ full = None /\ iface = None /\ normal = None /\ last = {}

(* the union over the layers below, which ends at the first layer             *)
RECURSIVE Below(_, _)
Below(i, l) == IF i >= nb \/ i > l THEN {}
               ELSE (IF l - i = 0 THEN P[l] ELSE P[l] \ P[l - 1 - i]) \cup Below(i + 1, l)
RECURSIVE Above(_, _)
Above(i, l) == IF i >= nt \/ l + i > N - 1 THEN {}
               ELSE (IF l + i = N - 1 THEN P[l] ELSE P[l] \ P[l + 1 + i]) \cup Above(i + 1, l)

Solid == /\ phase = "solid"
         /\ bottom' = [bottom EXCEPT ![k] = Below(0, k)]
         /\ top' = [top EXCEPT ![k] = Above(0, k) \ Below(0, k)]
         /\ IF k = N - 1 THEN phase' = "sparse" /\ k' = 0 ELSE phase' = phase /\ k' = k + 1
         /\ UNCHANGED <<P, nb, nt, gap, il, pct, sparse, brim, need, full, iface, normal, last>>
Sparse == /\ phase = "sparse"
          /\ sparse' = [sparse EXCEPT ![k] = IF pct THEN P[k] \ (bottom[k] \cup top[k]) ELSE {}]
          /\ IF k = N - 1 THEN phase' = "brim" /\ k' = 0 ELSE phase' = phase /\ k' = k + 1
          /\ UNCHANGED <<P, nb, nt, gap, il, pct, bottom, top, brim, need, full, iface, normal, last>>
Brim == /\ phase = "brim"
        /\ brim' \in {{}, Grow(P[0], Reach)}
        /\ phase' = "detect" /\ k' = 0
        /\ UNCHANGED <<P, nb, nt, gap, il, pct, bottom, top, sparse, need, full, iface, normal, last>>
Detect == /\ phase = "detect"
          /\ IF k < N - 1 /\ k >= gap
             THEN need' = [need EXCEPT ![k - gap] = Grow(P[k + 1] \ P[k], Reach)]
             ELSE UNCHANGED need
          /\ IF k = N - 1 THEN phase' = "generate" /\ k' = N - 1 ELSE phase' = phase /\ k' = k + 1
          /\ UNCHANGED <<P, nb, nt, gap, il, pct, bottom, top, sparse, brim, full, iface, normal, last>>
Generate == /\ phase = "generate"
            /\ LET a == (last \cup need[k]) \ P[k]
                   above == IF il = 0 THEN a ELSE full[IF k + il > N - 1 THEN N - 1 ELSE k + il]
                   on == IF k = 0 THEN brim ELSE {}
               IN /\ full' = [full EXCEPT ![k] = a]
                  /\ iface' = [iface EXCEPT ![k] = (a \ above) \ on]
                  /\ normal' = [normal EXCEPT ![k] = (a \cap above) \ on]
                  /\ last' = a
            /\ IF k = 0 THEN phase' = "done" /\ k' = 0 ELSE phase' = phase /\ k' = k - 1
            /\ UNCHANGED <<P, nb, nt, gap, il, pct, bottom, top, sparse, brim, need>>
Done == phase = "done" /\ UNCHANGED vars
Next == Solid \/ Sparse \/ Brim \/ Detect \/ Generate \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------- the meaning ------------------------------------------------------- *)
After(ps) == phase \in ps
Late == {"sparse", "brim", "detect", "generate", "done"}
SolidMeaning == After(Late) => \A l \in Layer : \A c \in Places :
    LET In(j) == c \in P[j] IN
    /\ c \in bottom[l] <=> c \in P[l] /\ IsBottom(In, l, nb)
    /\ c \in top[l] <=> c \in P[l] /\ IsTop(In, l, nt, N) /\ ~IsBottom(In, l, nb)
Division == After(Late \ {"sparse"}) => \A l \in Layer :
    /\ bottom[l] \cap top[l] = {} /\ bottom[l] \cap sparse[l] = {} /\ top[l] \cap sparse[l] = {}
    /\ pct => bottom[l] \cup top[l] \cup sparse[l] = P[l]
    /\ ~pct => sparse[l] = {}
\* a place has support exactly if something above needs it and no model is in between
Stands(c, l) == \E s \in l..N - 1 : c \in need[s] /\ \A j \in l..s : c \notin P[j]
SupportMeaning == phase = "done" => \A l \in Layer :
    /\ full[l] = {c \in Places : Stands(c, l)}
    /\ full[l] \cap P[l] = {}
    /\ iface[l] \cap normal[l] = {}
    /\ (iface[l] \cup normal[l]) = full[l] \ (IF l = 0 THEN brim ELSE {})
    /\ il = 0 => iface[l] = {}
    \* interface: there is no support the configured number of layers higher
    /\ il > 0 => \A c \in iface[l] : l + il > N - 1 \/ c \notin full[l + il]
    /\ il > 0 => \A c \in normal[l] : l + il <= N - 1 /\ c \in full[l + il]
NeedMeaning == phase \in {"generate", "done"} => \A s \in Layer :
    need[s] = IF s + gap < N - 1 THEN Grow(P[s + gap + 1] \ P[s + gap], Reach) ELSE {}
\* support never hangs in the air: it ends on the bed or on the model
Grounded == phase = "done" => \A l \in Layer \ {0} : \A c \in full[l] : c \in full[l - 1] \/ c \in P[l - 1]
Finishes == <>(phase = "done")
=============================================================================
