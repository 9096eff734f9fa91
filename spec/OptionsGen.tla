------------------------------ MODULE OptionsGen ------------------------------
(* Prints all texts up to a length over a small alphabet, for every type of     *)
(* option, and some longer ones.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L
Alphabet == ("um" :> {"0", "1", "9", "-", "+", " ", "_", "x", "."}) @@ ("mm" :> {"0", "1", "5", ".", "-", "+", "e", "n"}) @@ ("vec" :> {"0", "7", "-", "_"})
            @@ ("fan" :> {"0", "2", "6", "=", ",", "-"}) @@ ("script" :> {"G", " ", "\n", "\t"})
Len0 == ("um" :> L) @@ ("mm" :> L) @@ ("vec" :> L + 2) @@ ("fan" :> L + 1) @@ ("script" :> L + 1)
Pieces == {<<"1", "=", "2", "5", "5">>, <<"2", "=", "2", "5", "6">>, <<"0", "=", "0">>, <<"-", "1", "=", "5">>, <<"3", "=", "-", "1">>, <<"3">>, <<"4", "=", "1", "=", "1">>, <<>>, <<"+", "7", "=", "0", "9">>, <<"5", "=", " ", "1">>, <<"a", "=", "1">>}
Numbers == {<<"1", "2">>, <<"-", "3">>, <<>>, <<"x">>, <<"1", ".", "5">>, <<"0">>, <<" ", "1">>}
Join(s, c) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] \o <<c>> \o s[2] ELSE IF Len(s) = 3 THEN s[1] \o <<c>> \o s[2] \o <<c>> \o s[3] ELSE s[1] \o <<c>> \o s[2] \o <<c>> \o s[3] \o <<c>> \o s[4]
Longer == ("um" :> {<<"1">> \o n : n \in Numbers}) @@ ("mm" :> {a \o <<".">> \o b : a, b \in Numbers} \cup {a \o w : a \in {<<>>, <<"-">>, <<"+">>}, w \in {<<"n", "a", "n">>, <<"N", "a", "N">>, <<"i", "n", "f">>, <<"I", "n", "f", "i", "n", "i", "t", "y">>}})
          @@ ("vec" :> {Join(s, "_") : s \in UNION {[1..k -> Numbers] : k \in 2..(L \div 2 + 1)}}) @@ ("fan" :> {Join(s, ",") : s \in UNION {[1..k -> Pieces] : k \in 1..(L \div 2 + 1)}})
          @@ ("script" :> {Join(s, "\n") : s \in [1..3 -> {<<"G", "1", " ", "X">>, <<" ", "M", "8", "2">>, <<>>, <<"\r">>, <<";", "%", "d", " ">>}]})
VARIABLE x
ASSUME \A t \in DOMAIN Alphabet : \A s \in UNION {[1..k -> Alphabet[t]] : k \in 0..Len0[t]} \cup Longer[t] : PrintT("CASE " \o ToJson([t |-> t, text |-> s]))
GInit == x = 0
GNext == UNCHANGED x
=============================================================================
