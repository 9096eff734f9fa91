------------------------------ MODULE InputGen ------------------------------
(* Prints every defect of the design model of Input as a test case: the       *)
(* harness builds the file, with concrete texts for the tokens.               *)
EXTENDS Input, Json
Toks(f) == [k \in 1..Len(f) |-> f[k][1]]
CaseOf(f, n, what) == PrintT("CASE " \o ToJson([kind |-> "ascii", toks |-> Toks(f), n |-> n, what |-> what]))
ASSUME \A n \in 0..MaxTris :
    /\ CaseOf(Good(n), n, "good")
    /\ \A p \in 1..Len(Good(n)) :
        /\ CaseOf(Without(Good(n), p), n, "without")
        /\ CaseOf(Truncated(Good(n), p), n, "truncated")
        /\ \A k \in {"facet", "endfacet", "endsolid", "num", "bad"} \ {Good(n)[p][1]} : CaseOf(Replaced(Good(n), p, k), n, "replaced")
        /\ \A k \in {"num", "vertex", "endsolid", "bad"} : CaseOf(Inserted(Good(n), p, k), n, "inserted")
(* binary files: announced triangles x length                                *)
ASSUME \A n \in 0..MaxTris + 1 : \A len \in 0..(84 + 50 * n + 60) :
    (len % 7 = 0 \/ (len > 84 + 50 * n - 3 /\ len < 84 + 50 * n + 3) \/ len \in {0, 1, 5, 6, 79, 80, 81, 82, 83, 84, 85} \/ (len - 84) % 50 = 0)
       => PrintT("CASE " \o ToJson([kind |-> "binary", count |-> n, len |-> len]))
ASSUME \A w \in {"missing", "empty", "directory", "noheader", "badheader", "upperheader", "nameless"} : PrintT("CASE " \o ToJson([kind |-> "special", what |-> w]))
(* a number which is none or does not fit, at each of the 27 coordinates      *)
ASSUME \A w \in {"nonfinite", "huge"}, k \in 0..26, bin \in BOOLEAN :
    PrintT("CASE " \o ToJson([kind |-> "special", what |-> w, at |-> k, bin |-> bin]))
GenInit == file = <<>> /\ i = 0 /\ s = Start /\ ok0 = 0
GenNext == UNCHANGED vars
=============================================================================
