------------------------------- MODULE RerunGen -------------------------------
(* Prints all histories of runs on two instances and two models, and all orders *)
(* in which runs of different instances take turns.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxRuns, Turns, Turns3
Run == {1, 2} \X {1, 2}
Orders(n, t) == {f \in [1..n * t -> 1..n] : \A k \in 1..n : Cardinality({i \in 1..n * t : f[i] = k}) = t}
VARIABLE x
ASSUME \A k \in 2..MaxRuns : \A rs \in [1..k -> Run] : PrintT("CASE " \o ToJson([kind |-> "seq", runs |-> rs]))
ASSUME \A o \in Orders(2, Turns) : PrintT("CASE " \o ToJson([kind |-> "mix", runs |-> <<<<1, 1>>, <<2, 2>>>>, order |-> o]))
ASSUME \A o \in Orders(2, Turns - 1) : PrintT("CASE " \o ToJson([kind |-> "mix", runs |-> <<<<1, 1>>, <<1, 2>>>>, order |-> o]))
ASSUME \A o \in Orders(2, Turns - 1) : PrintT("CASE " \o ToJson([kind |-> "mix", runs |-> <<<<1, 1>>, <<2, 1>>>>, order |-> o]))
ASSUME Turns3 > 0 => \A o \in Orders(3, Turns3) : PrintT("CASE " \o ToJson([kind |-> "mix", runs |-> <<<<1, 1>>, <<2, 2>>, <<1, 2>>>>, order |-> o]))
GInit == x = 0
GNext == UNCHANGED x
=============================================================================
