------------------------------- MODULE Contour -------------------------------
(* C07, closing of gaps (slicer/layer.go, makePolygons).                       *)
(*                                                                             *)
(* The cross-section of one closed shell is a cycle of edges; where a face is  *)
(* missing there is a gap.  The edges between two gaps form chains; as chains  *)
(* are collected from any start edge on, they may come in several pieces with  *)
(* a distance of zero.  Pieces whose ends are at most the join distance apart  *)
(* are connected; a piece whose own ends are at most the finish distance apart *)
(* is closed; open pieces are left out.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs0(x) == IF x < 0 THEN -x ELSE x

Max2C(a, b) == IF a > b THEN a ELSE b

(* the rule: what becomes of a cycle with these gaps (their sizes)             *)
Big(gaps, join) == {i \in 1..Len(gaps) : gaps[i] > join}
MaxGap(gaps) == IF gaps = <<>> THEN 0 ELSE CHOOSE m \in {gaps[i] : i \in 1..Len(gaps)} : \A i \in 1..Len(gaps) : gaps[i] <= m
Closes(gaps, join, finish) ==
    \/ gaps = <<>>
    \/ Cardinality(Big(gaps, join)) = 0 /\ (Len(gaps) > 1 \/ gaps[1] <= Max2C(join, finish))
    \/ Cardinality(Big(gaps, join)) = 1 /\ MaxGap(gaps) <= finish


CONSTANTS K, Sizes, Join, Finish
VARIABLES gap,     \* gap[i]: what lies between piece i and the next one (cyclic); 0 = nothing
          pieces,  \* pieces which are left: <<first, last>> of the chain of original pieces
          outcome  \* "open", "closed", "left out"
vars == <<gap, pieces, outcome>>
N(i) == IF i = K THEN 1 ELSE i + 1

Init == /\ gap \in [1..K -> Sizes]
        /\ pieces = {<<i, i>> : i \in 1..K}
        /\ outcome = "open"
(* connect the end of p with the start of q                                    *)
Connect(p, q) == /\ outcome = "open" /\ p # q
                 /\ N(p[2]) = q[1] /\ gap[p[2]] <= Join
                 /\ pieces' = (pieces \ {p, q}) \cup {<<p[1], q[2]>>}
                 /\ UNCHANGED <<gap, outcome>>
CanConnect == \E p, q \in pieces : p # q /\ N(p[2]) = q[1] /\ gap[p[2]] <= Join
(* only if nothing can be connected any more                                   *)
Finish1 == /\ outcome = "open" /\ ~CanConnect
           /\ outcome' = IF Cardinality(pieces) = 1 /\ \A p \in pieces : gap[p[2]] <= Max2C(Join, Finish)
                         THEN "closed" ELSE "left out"
           /\ UNCHANGED <<gap, pieces>>
Next == Finish1 \/ \E p, q \in pieces : Connect(p, q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE GapSeq(_)
GapSeq(i) == IF i = 0 THEN <<>> ELSE GapSeq(i - 1) \o (IF gap[i] > 0 THEN <<gap[i]>> ELSE <<>>)
(* The outcome does not depend on the order in which pieces are found and      *)
(* connected, it is what the rule says.  (An own end within the finish         *)
(* distance of a piece which is not the whole cycle is not modelled.)          *)
RuleHolds == outcome # "open" => (outcome = "closed" <=> Closes(GapSeq(K), Join, Finish))
Ends == <>(outcome # "open")
=============================================================================
