------------------------------ MODULE RobustTrace ------------------------------
(* Real runs of models of all kinds with options of all kinds: each ends with an *)
(* error or with complete G-code, and there is no error without a reason.        *)
EXTENDS TraceLib
R == INSTANCE Robust WITH Guarded <- TRUE, MaxH <- 0, o <- 0, mesh <- 0, at <- "", k <- 0, x <- 0, layers <- <<>>, out <- <<>>, res <- ""
VARIABLES l, a, last   \* what was asked for; the last layer which was seen
E == Trace[l]
A == Trace[a]
None == -1000000
Sound(e) == e.kind \in {"box", "boxes", "floating", "thin", "wide", "solid", "ring", "dup", "cone", "strips", "upside", "needle"} /\ \A i \in 1..Len(e.set) : e.set[i][3] = "ok"
Hopeless(e) == \E i \in 1..Len(e.set) : e.set[i][3] = "no"
Layers(e) == R!Count(e.zmax, e.th0, e.th)
Z(e, n) == e.th0 + n * e.th
Ask == /\ E.ev = "ask" /\ a' = l /\ last' = None
       /\ Check(~(E.err /\ Sound(E)), "C03", E, l, "an error without a reason", E.msg)
       /\ Check(Hopeless(E) => E.err, "C03", E, l, "unusable values are not reported", E.set)
       /\ Check(E.err => ~E.file, "C03", E, l, "an error, but a file was written", E.msg)
       /\ Check(~E.err => E.file, "C03", E, l, "neither an error nor a file", 0)
Layer == /\ E.ev = "layer" /\ last' = E.n /\ a' = a
         /\ Check(E.n = (IF last = None THEN 0 ELSE last + 1) /\ E.n < Layers(A), "C03", E, l, "a layer is missing, repeated or out of order", [after |-> last, layer |-> E.n, layers |-> Layers(A)])
         /\ LET z == Z(A, E.n) IN
            /\ Check(\A i \in 1..Len(E.zs) : \E h \in {0, A.hop} : E.zs[i] - z - h \in -5..5, "C03", E, l, "a layer at another height", [n |-> E.n, z |-> z, got |-> E.zs])
            /\ Check(E.prints > 0 \/ A.mult = 0 \/ E.n >= Len(A.walls) \/ A.walls[E.n + 1] = 0, "C03", E, l, "nothing of a layer is printed", E.n)
            /\ Check(E.prints > 0 \/ ~Sound(A) \/ \A i \in 1..Len(A.full) : ~(A.full[i][1] + 5 < z /\ z < A.full[i][2] - 5), "C03", E, l, "nothing of a layer of the model is printed", [n |-> E.n, z |-> z, full |-> A.full])
End == /\ E.ev = "end" /\ a' = a /\ last' = -1
       /\ Check(last + 1 = Layers(A), "C03", E, l, "the end comes before all layers were printed", [last |-> last, layers |-> Layers(A)])
Done == /\ E.ev = "done" /\ UNCHANGED <<a, last>>
        /\ Check(last = -1, "C03", E, l, "the G-code has no end", last)
        /\ Check(E.odd = <<>>, "C03", E, l, "lines which are no G-code or out of place", E.odd)
Program == /\ E.ev = "program" /\ UNCHANGED <<a, last>>
           /\ Check(~E.panic, "C03", E, l, "the program crashes", E.text)
           /\ Check(E.code = (IF E.err THEN 2 ELSE 0), "C03", E, l, "exit code", [code |-> E.code, text |-> E.text])
           /\ Check(E.err => E.says /\ ~E.file, "C03", E, l, "the error is not reported by the program", E.text)
           /\ Check(~E.err => E.file /\ E.same, "C03", E, l, "the program writes something else", E.text)
Crash == E.ev = "crash" /\ Viol("crash", E, l, E.msg, E.stack) /\ UNCHANGED <<a, last>>
TInit == l = 1 /\ a = 1 /\ last = None
TNext == l <= Len(Trace) /\ l' = l + 1 /\ (Ask \/ Layer \/ End \/ Done \/ Program \/ Crash)
TSpec == TInit /\ [][TNext]_<<l, a, last>>
===============================================================================
