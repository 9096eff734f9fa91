------------------------------- MODULE MeshTrace -------------------------------
(* Validates meshes built by the real optimizer.  The choices the specification  *)
(* leaves open are followed as a set of possible states, which shrinks with      *)
(* what is observed: the faces which come out, in order.                         *)
EXTENDS Mesh, TraceLib

VARIABLES l, i, poss, bad
(* poss: possible states [pts, faces] before input face i of the mesh at line l  *)
tvars == <<mesh, input, l, i, poss, bad>>

E == Trace[l]
NFaces == Len(E.input)

(* The placement moves the middle of the bounding box of the input to the        *)
(* configured centre (in whole micrometres, so there may be two such places) and *)
(* its lowest point to the configured height.                                    *)
In(a) == CoordsOf(E.input, a)
Lo(a) == MinOf(In(a))
Hi(a) == MaxOf(In(a))
ShiftXY(a) == {E.center[a] - (Lo(a) + Hi(a)) \div 2, E.center[a] - (Lo(a) + Hi(a) + 1) \div 2}
Shifts == {<<x, y, E.center[3] - Lo(3)>> : x \in ShiftXY(1), y \in ShiftXY(2)}
S0 == {[s |-> [pts |-> {}, faces |-> <<>>], sh |-> sh] : sh \in Shifts}

Plus(f, sh) == <<<<f[1][1] + sh[1], f[1][2] + sh[2], f[1][3] + sh[3]>>,
                 <<f[2][1] + sh[1], f[2][2] + sh[2], f[2][3] + sh[3]>>,
                 <<f[3][1] + sh[1], f[3][2] + sh[2], f[3][3] + sh[3]>>>>

(* the part of a state which the observation can agree with                      *)
Agrees(s, sh) == LET n == Len(s.faces) IN n <= Len(E.placed) /\ (n = 0 \/ Plus(s.faces[n], sh) = E.placed[n])

TInit == Init /\ l = 1 /\ i = 0 /\ poss = {} /\ bad = FALSE

Begin == /\ E.ev = "mesh" /\ i = 0
         /\ i' = 1 /\ poss' = S0 /\ bad' = FALSE /\ UNCHANGED <<mesh, input, l>>

Step == UNION {{[s |-> t, sh |-> p.sh] : t \in {u \in AddFace(p.s, E.input[i], E.meld) : Agrees(u, p.sh)}} : p \in poss}

Face ==
    /\ E.ev = "mesh" /\ ~E.err /\ ~bad /\ i \in 1..NFaces
    /\ LET n == Step IN
       IF n = {} THEN /\ Viol("C04", E, l, "the faces are not the cleaned and centred faces of the input",
                              [face |-> i, in |-> E.input[i], meld |-> E.meld, center |-> E.center, shifts |-> Shifts, placed |-> Cut(E.placed, 6)])
                      /\ bad' = TRUE /\ poss' = {}
                 ELSE poss' = n /\ bad' = FALSE
    /\ i' = i + 1 /\ UNCHANGED <<mesh, input, l>>

Ob(a) == CoordsOf(E.placed, a)

Bounds ==
    /\ Check(E.size = <<Hi(1) - Lo(1), Hi(2) - Lo(2), Hi(3) - Lo(3)>>, "C04", E, l, "wrong size", E.size)
    /\ Check(E.min = <<MinOf(Ob(1)), MinOf(Ob(2)), MinOf(Ob(3))>> /\ E.max = <<MaxOf(Ob(1)), MaxOf(Ob(2)), MaxOf(Ob(3))>>, "C04", E, l,
             "wrong bounds", [min |-> E.min, max |-> E.max])
    /\ Check(\A k \in 1..Len(E.placed) : E.zmin[k] = MinOf({E.placed[k][j][3] : j \in 1..3}) /\ E.zmax[k] = MaxOf({E.placed[k][j][3] : j \in 1..3}),
             "C06", E, l, "wrong Z range of a face", 0)
    /\ Check(~E.changed, "C04", E, l, "the input model was changed", 0)

Neighbours ==
    \A k \in 1..Len(E.placed) : \A j \in 1..3 :
        LET n == E.touching[k][j] + 1
            o == Others(E.placed, k, j)
        IN Check(IF n = 0 THEN o = {} ELSE n \in o, "C05", E, l, "wrong neighbour",
                 [face |-> k, edge |-> j, got |-> n, allowed |-> o, corners |-> E.placed[k]])

(* the mesh is done: all observed faces have to be explained                     *)
Done ==
    /\ E.ev = "mesh" /\ ~E.err /\ i > 0 /\ (bad \/ i > NFaces)
    /\ IF bad THEN TRUE
       ELSE Check(\E p \in poss : Len(p.s.faces) = Len(E.placed), "C04", E, l, "more faces than the input explains", Len(E.placed))
    /\ Bounds
    /\ Neighbours
    /\ l' = l + 1 /\ i' = 0 /\ poss' = {} /\ bad' = FALSE /\ UNCHANGED <<mesh, input>>

(* an error is right only if no face is left                                     *)
RECURSIVE AllDropped(_, _, _)
AllDropped(ss, fs, k) ==
    IF k > Len(fs) THEN ss # {}
    ELSE AllDropped(UNION {{t \in AddFace(s, fs[k], E.meld) : t.faces = <<>>} : s \in ss}, fs, k + 1)
Failed ==
    /\ E.ev = "mesh" /\ E.err /\ i > 0
    /\ Check(AllDropped({[pts |-> {}, faces |-> <<>>]}, E.input, 1), "C04", E, l, "a model with usable faces is refused", 0)
    /\ l' = l + 1 /\ i' = 0 /\ UNCHANGED <<mesh, input, poss, bad>>

Crash == /\ E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack)
         /\ l' = l + 1 /\ UNCHANGED <<mesh, input, i, poss, bad>>

TNext == l <= Len(Trace) /\ (Begin \/ Face \/ Done \/ Failed \/ Crash)
TSpec == TInit /\ [][TNext]_tvars
Finished == l > Len(Trace) => TLCSet(7, TRUE)
AllSeen == TLCGet(7)
=============================================================================
