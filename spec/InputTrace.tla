----------------------------- MODULE InputTrace -----------------------------
(* Validates what the real reader (and a run using it) did with a file.       *)
EXTENDS Input, TraceLib
VARIABLE l
tvars == <<l, file, i, s, ok0>>
E == Trace[l]

Info == [what |-> E.what, err |-> E.err, runerr |-> E.runerr, written |-> E.written, head |-> E.head]

TInit == l = 1 /\ file = <<>> /\ i = 0 /\ s = Start /\ ok0 = 0
TNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ IF E.ev = "crash" THEN Viol("crash", E, l, E.msg, E.stack) /\ UNCHANGED <<file, i, s, ok0>>
       ELSE
       /\ IF E.kind = "ascii" THEN s' = FeedAll(Start, E.toks, 1) ELSE UNCHANGED s
       /\ UNCHANGED <<file, i, ok0>>
       /\ LET valid == CASE E.kind = "ascii" -> E.header /\ Accepted(s')
                         [] E.kind = "binary" -> BinaryValid(E.count, E.len)
                         [] OTHER -> FALSE
              tris == IF E.kind = "ascii" THEN s'.tris ELSE E.tris
              empty == Len(tris) = 0
          IN \* the reader
             /\ IF valid /\ E.err /\ E.nameless THEN ViolK("C02", "nameless-solid", E, l, "an ASCII file whose solid has no name is rejected", Info)
                ELSE IF valid THEN Check(~E.err, "C02", E, l, "a valid file is rejected", Info)
                              /\ (E.err \/ Check(SameTris(E.out, tris), "C02", E, l, "the triangles read are not those of the file", [info |-> Info, out |-> E.out, tris |-> tris]))
                ELSE IF E.err \/ E.runerr THEN TRUE
                ELSE IF /\ E.kind = "ascii" /\ E.header
                        /\ LET r == FeedAllLenient(Start, E.toks, 1)
                           IN Accepted(r) /\ SameTris(E.out, r.tris)
                THEN ViolK("C02", "junk-between-facets", E, l, "anything between two facets is skipped", Info)
                ELSE Viol("C02", E, l, "a malformed file is accepted", Info)
             \* a run using it
             /\ IF (valid /\ E.nameless) \/ (~valid /\ ~E.err /\ ~E.runerr) THEN TRUE
                ELSE IF valid /\ ~empty THEN Check(~E.runerr /\ E.written, "C02", E, l, "a valid file is not sliced", Info)
                ELSE /\ Check(E.runerr, "C02", E, l, "no error for a file without a usable model", Info)
                     /\ Check(~E.written, "C02", E, l, "output written for a file without a usable model", Info)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
