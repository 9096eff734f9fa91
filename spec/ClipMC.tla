-------------------------------- MODULE ClipMC --------------------------------
(* Clip with shapes on a grid of 3 x 3 cells.                                   *)
EXTENDS Clip
G == (0..2) \X (0..2)
S(o, h) == [out |-> o, holes |-> h]
Full == S(G, {})
Ring == S(G, {{<<1, 1>>}})
Mid == S({<<1, 1>>}, {})
Col0 == S({c \in G : c[1] = 0}, {})
Row1 == S({c \in G : c[2] = 1}, {})
Ell == S({c \in G : c[1] = 0 \/ c[2] = 0}, {})
U == S({c \in G : ~(c[1] = 1 /\ c[2] > 0)}, {})
Plus == S({c \in G : c[1] = 1 \/ c[2] = 1}, {})
Low == S({c \in G : c[1] < 2 /\ c[2] < 2}, {})
High == S({c \in G : c[1] > 0 /\ c[2] > 0}, {})
Corner == S({<<2, 0>>}, {})
Right == S({c \in G : c[1] > 0}, {})
All == {Full, Ring, Mid, Col0, Row1, Ell, U, Plus, Low, High, Corner, Right}
(* everything within 2 x 2 cells and rings around a cell                        *)
Tiny == {S(x, {}) : x \in SUBSET ((0..1) \X (0..1))} \cup {Ring, Mid}
=============================================================================
