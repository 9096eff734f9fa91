-------------------------------- MODULE Input --------------------------------
(* C02: what an STL file contains and whether it may be read at all.          *)
(*                                                                            *)
(* An ASCII file is a header line followed by tokens.  A token is a pair      *)
(* <<kind, value>>, the value (in nanometres) only matters for numbers.  The  *)
(* reader is an automaton consuming one token per step.  A binary file is     *)
(* given by the number of triangles its header announces and its length.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Template == <<"facet", "normal", "num", "num", "num", "outer", "loop",
              "vertex", "num", "num", "num", "vertex", "num", "num", "num",
              "vertex", "num", "num", "num", "endloop", "endfacet">>
N == Len(Template)
(* the positions of the nine coordinates in the template                      *)
IsCoord(k) == k \in 9..11 \cup 13..15 \cup 17..19

(* ---- the reader automaton ------------------------------------------------ *)
(* st: 0 = before a facet, 1..N-1 = that many tokens of a facet are consumed, *)
(* -1 = malformed, -2 = the end of the solid was reached                      *)
Start == [st |-> 0, coords |-> <<>>, tris |-> <<>>]

Feed(s, t) ==
    CASE s.st = -2 -> s                              \* nothing after the end is looked at
      [] s.st = -1 -> s
      [] s.st = 0 /\ t[1] = "endsolid" -> [s EXCEPT !.st = -2]
      [] s.st >= 0 /\ t[1] = Template[s.st + 1] ->
            LET k == s.st + 1
                c == IF IsCoord(k) THEN Append(s.coords, t[2]) ELSE s.coords
            IN IF k = N THEN [st |-> 0, coords |-> <<>>, tris |-> Append(s.tris, c)]
                        ELSE [s EXCEPT !.st = k, !.coords = c]
      [] OTHER -> [s EXCEPT !.st = -1]

Accepted(s) == s.st = -2

RECURSIVE FeedAll(_, _, _)
FeedAll(s, toks, i) == IF i > Len(toks) THEN s ELSE FeedAll(Feed(s, toks[i]), toks, i + 1)

(* The parser of the STL library the code uses recovers from anything between *)
(* two facets by looking for the next facet or the end: a known deviation.    *)
FeedLenient(st, t) ==
    IF st.st = 0 /\ t[1] \notin {"facet", "endsolid"} THEN st ELSE Feed(st, t)
RECURSIVE FeedAllLenient(_, _, _)
FeedAllLenient(st, toks, k) == IF k > Len(toks) THEN st ELSE FeedAllLenient(FeedLenient(st, toks[k]), toks, k + 1)

AsciiValid(header, toks) == header /\ Accepted(FeedAll(Start, toks, 1))
AsciiTris(toks) == FeedAll(Start, toks, 1).tris

BinaryValid(count, len) == len = 84 + 50 * count

(* A coordinate is rounded to the nearest micrometre; values are 32 bit       *)
(* floats, which are not exact to the nanometre.                              *)
Abs(x) == IF x < 0 THEN -x ELSE x
Rounded(um, nm) == Abs(um * 1000 - nm) <= 500 + 2 + Abs(nm) \div 5000000

SameTri(um, nm) == Len(um) = 9 /\ Len(nm) = 9 /\ \A i \in 1..9 : Rounded(um[i], nm[i])
SameTris(um, nm) == Len(um) = Len(nm) /\ \A i \in 1..Len(nm) : SameTri(um[i], nm[i])

(* ---- design model: every single defect at every place ------------------- *)
CONSTANT MaxTris
VARIABLES file, i, s, ok0
vars == <<file, i, s, ok0>>

Tri(n) == [k \in 1..N |-> <<Template[k], IF IsCoord(k) THEN 100 * n + k ELSE 0>>]
RECURSIVE Body(_)
Body(n) == IF n = 0 THEN <<>> ELSE Body(n - 1) \o Tri(n)
Good(n) == Body(n) \o <<<<"endsolid", 0>>>>

Kinds == {Template[k] : k \in 1..N} \cup {"endsolid", "bad"}
Without(f, p) == SubSeq(f, 1, p - 1) \o SubSeq(f, p + 1, Len(f))
Replaced(f, p, k) == [f EXCEPT ![p] = <<k, 7>>]
Inserted(f, p, k) == SubSeq(f, 1, p - 1) \o <<<<k, 7>>>> \o SubSeq(f, p, Len(f))
Truncated(f, p) == SubSeq(f, 1, p - 1)

Init == /\ \E n \in 0..MaxTris :
             \/ file = Good(n) /\ ok0 = n
             \/ /\ ok0 = -1
                /\ \E p \in 1..Len(Good(n)) :
                    \/ file = Without(Good(n), p)
                    \/ file = Truncated(Good(n), p)
                    \/ \E k \in Kinds \ {Good(n)[p][1]} : file = Replaced(Good(n), p, k)
                    \/ \E k \in Kinds : file = Inserted(Good(n), p, k)
        /\ i = 1 /\ s = Start
Next == i <= Len(file) /\ i' = i + 1 /\ s' = Feed(s, file[i]) /\ UNCHANGED <<file, ok0>>
Spec == Init /\ [][Next]_vars

(* A good file is accepted with all its triangles ...                         *)
GoodAccepted == (i > Len(file) /\ ok0 >= 0) => (Accepted(s) /\ Len(s.tris) = ok0)
(* ... no proper prefix of it ...                                             *)
PrefixRejected == (ok0 >= 0 /\ i <= Len(file)) => ~Accepted(s)
(* ... and one with a defect only if what is left reads as a shorter solid:   *)
(* an early "endsolid" between two facets.                                    *)
DefectRejected ==
    (i > Len(file) /\ ok0 < 0 /\ Accepted(s)) =>
        \E p \in 1..Len(file) : file[p][1] = "endsolid" /\ (p - 1) % N = 0 /\ Len(s.tris) = (p - 1) \div N
(* Triangles only consist of coordinates of complete facets, in order.        *)
Complete == \A t \in 1..Len(s.tris) : Len(s.tris[t]) = 9
Monotone == [][\A t \in 1..Len(s.tris) : t <= Len(s'.tris) /\ s'.tris[t] = s.tris[t]]_vars
=============================================================================
