------------------------------ MODULE LayersGen ------------------------------
(* Prints layer stacks and gap patterns as test cases.                        *)
EXTENDS Layers, Json
CONSTANT GapEdges
ASSUME \A i \in Inits, t \in Ths : \A f \in [1..MaxSpans -> AllSpans] :
    (\A a, b \in 1..MaxSpans : a < b => (f[a][1] < f[b][1] \/ (f[a][1] = f[b][1] /\ f[a][2] <= f[b][2])))
        => PrintT("CASE " \o ToJson([kind |-> "stack", init |-> i, th |-> t, spans |-> f]))
(* every pattern of present edges and missing ones of three sizes, up to rotation *)
ASSUME \A g \in [1..GapEdges -> 0..3] :
    (g[1] = 0) => PrintT("CASE " \o ToJson([kind |-> "gaps", gaps |-> g]))
GInit == init = 1 /\ th = 1 /\ todo = {} /\ spans = {} /\ layers = <<>>
GNext == UNCHANGED vars
=============================================================================
