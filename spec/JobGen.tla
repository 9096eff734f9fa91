-------------------------------- MODULE JobGen --------------------------------
(* Prints small jobs: custom G-code, safe start and stop, heated bed, the layer *)
(* of the normal temperatures, fan tables, numbers of layers.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pairs, MaxN, CountMax
Line(pre, off, code, args) == [pre |-> pre, off |-> off, code |-> code, args |-> args]
StartLines == {Line("", FALSE, "M109", <<" S", "HOT", " ; wait">>), Line("  ", FALSE, "M104", <<"S", "HOT">>), Line("", FALSE, "M190", <<" S", "BED">>),
               Line("\t", FALSE, "M140", <<" S", "BED", " ;", "BED", "x", "HOT">>), Line("", FALSE, "M109", <<" S210;M140">>), Line("", TRUE, "M109", <<" S", "HOT">>),
               Line("", TRUE, " M190", <<" S", "BED">>), Line(" ", TRUE, "M140", <<" S50 ; M104 S1">>), Line("", FALSE, "G28", <<" ; M104 S", "HOT">>),
               Line("", FALSE, "M117", <<" 50% M190">>), Line("", FALSE, "G1", <<" Z5 F5000 ; lift">>), Line("", FALSE, "G1", <<" X20.00 E5.0000">>),
               Line("", FALSE, "M107", <<" ; disable fan">>), Line("", FALSE, "M1090", <<" S1">>), Line("", FALSE, "M14", <<"">>), Line("", TRUE, ";M104", <<" S9">>)}
EndLines == {Line("", FALSE, "M104", <<" S0">>), Line(" ", FALSE, "M104", <<"S0;off">>), Line("", FALSE, "M109", <<" S0">>), Line("", FALSE, "M140", <<" S0 ; bed">>),
             Line("", FALSE, "M190", <<" S0">>), Line("", TRUE, "M140", <<" S0">>), Line("", TRUE, " M104", <<" S0">>), Line("", FALSE, "M84", <<" ;M104 M140">>),
             Line("", FALSE, "G28", <<" X0  ; home">>), Line("", FALSE, "M1040", <<"">>), Line("", FALSE, "M117", <<" 100% ", "HOT">>)}
Tables == {<<>>, <<<<0, 0>>>>, <<<<0, 255>>>>, <<<<1, 128>>>>, <<<<0, 7>>, <<1, 0>>>>, <<<<1, 1>>, <<2, 255>>>>, <<<<0, 9>>, <<2, 0>>, <<7, 3>>>>}
Scripts(lines) == {<<>>} \cup {<<a>> : a \in lines} \cup (IF Pairs THEN lines \X lines ELSE {<<a, b>> : a \in {a \in lines : a.off}, b \in {b \in lines : ~b.off /\ Len(b.code) = 4}})
Of(safe, bed, count, fan, start, end, n) == PrintT("CASE " \o ToJson([safe |-> safe, bed |-> bed, count |-> count, fan |-> fan, start |-> start, end |-> end, n |-> n]))
VARIABLE x
ASSUME \A safe, bed \in BOOLEAN :
         /\ \A count \in 0..CountMax : \A fan \in Tables : \A n \in 1..MaxN : Of(safe, bed, count, fan, <<>>, <<>>, n)
         /\ \A s \in Scripts(StartLines) : Of(safe, bed, 1, <<>>, s, <<>>, 2)
         /\ \A e \in Scripts(EndLines) : Of(safe, bed, 1, <<>>, <<>>, e, 1)
GInit == x = 0
GNext == UNCHANGED x
=============================================================================
