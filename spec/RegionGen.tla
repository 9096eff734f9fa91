------------------------------ MODULE RegionGen ------------------------------
(* Prints all stacks of layers made of a row of cells.                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Layers, Row
VARIABLE x
ASSUME \A f \in [1..Layers -> SUBSET (1..Row)] : PrintT("CASE " \o ToJson([n |-> Row, p |-> f]))
GInit == x = 0
GNext == UNCHANGED x
=============================================================================
