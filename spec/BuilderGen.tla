------------------------------ MODULE BuilderGen ------------------------------
(* Prints all histories of a few operations on the builder.                    *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Heights
Paths == {<<0, 1>>, <<2, 0>>, <<1, 2, 0>>}
Ops == [op : {"path"}, pts : Paths, z : Heights, judged : BOOLEAN, closed : BOOLEAN]
       \cup [op : {"go"}, p : {0, 2}, z : Heights, e : {0, 1}]
       \cup [op : {"print", "over"}, s : {0, 1}] \cup [op : {"move"}, s : {1}] \cup [op : {"nover", "off"}]
\* a history always ends with something which can be seen, and does not start with everything being unknown
First == {[op |-> "path", pts |-> <<0, 1>>, z |-> 0, judged |-> FALSE, closed |-> FALSE]}
VARIABLE x
ASSUME \A f \in [1..Depth -> Ops] :
         f[Depth].op = "path" => PrintT("CASE " \o ToJson([ops |-> <<CHOOSE o \in First : TRUE>> \o f]))
GInit == x = 0
GNext == UNCHANGED x
=============================================================================
