------------------------------- MODULE Options -------------------------------
(* Option values as text.  A text is a sequence of characters.  Parse tells    *)
(* what a text of a type means: "ok" with the value, "err" if it has to be      *)
(* rejected, "some" if it has to be accepted (but has more digits than can be   *)
(* kept), "open" if it is left open (other notations of numbers as 0x10, 1_000, *)
(* 1e3, leading zeros, tables with a layer given twice).                        *)
(* Numbers are canonical texts: no plus, no leading zeros, no zeros at the end   *)
(* of a fraction.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9
Blank == {" ", "\t", "\r"}
Ok(v) == [k |-> "ok", v |-> v]
Err == [k |-> "err", v |-> ""]
Open == [k |-> "open", v |-> ""]
Some(v) == [k |-> "some", v |-> v]

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
All(s, S) == \A i \in 1..Len(s) : s[i] \in S
Has(s, c) == \E i \in 1..Len(s) : s[i] = c
Signed(s) == s # <<>> /\ Head(s) \in {"+", "-"}
Body(s) == IF Signed(s) THEN Tail(s) ELSE s
Minus(s) == s # <<>> /\ Head(s) = "-"
RECURSIVE NoZeros(_)
NoZeros(s) == IF s # <<>> /\ Head(s) = "0" THEN NoZeros(Tail(s)) ELSE s
RECURSIVE NoLastZeros(_)
NoLastZeros(s) == IF s # <<>> /\ s[Len(s)] = "0" THEN NoLastZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* a <= b for digits without leading zeros
RECURSIVE NotMore(_, _)
NotMore(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE a = <<>> \/ Digit(Head(a)) < Digit(Head(b)) \/ (Head(a) = Head(b) /\ NotMore(Tail(a), Tail(b)))
Most == <<"9", "2", "2", "3", "3", "7", "2", "0", "3", "6", "8", "5", "4", "7", "7", "5", "8", "0", "7">>
Least == [Most EXCEPT ![19] = "8"]
Canonical(minus, digits) == IF digits = <<>> THEN "0" ELSE (IF minus THEN "-" ELSE "") \o Cat(digits)
\* split at every c
RECURSIVE Split(_, _, _)
Split(s, c, acc) == IF s = <<>> THEN <<acc>> ELSE IF Head(s) = c THEN <<acc>> \o Split(Tail(s), c, <<>>) ELSE Split(Tail(s), c, Append(acc, Head(s)))
Parts(s, c) == Split(s, c, <<>>)

Letters == {"a", "b", "c", "d", "e", "f", "x", "X", "o", "O", "B", "A", "C", "D", "E", "F", "p", "P"}
\* a whole number, other notations (with another base) may be allowed
Whole(s, bases) ==
    LET b == Body(s) d == NoZeros(b) IN
    IF b = <<>> THEN Err
    ELSE IF All(b, Digits)
    THEN IF bases /\ Len(b) > 1 /\ Head(b) = "0" THEN Open
         ELSE IF NotMore(d, IF Minus(s) THEN Least ELSE Most) THEN Ok(Canonical(Minus(s), d)) ELSE Err
    ELSE IF bases /\ Head(b) \in Digits /\ (Has(b, "_") \/ Head(b) = "0") /\ All(b, Digits \cup Letters \cup {"_"}) THEN Open
    ELSE Err
\* a number with a fraction
Special == {"inf", "Inf", "INF", "infinity", "Infinity", "INFINITY", "nan", "NaN", "NAN", "Nan"}
Decimal(s) ==
    LET b == Body(s) p == Parts(b, ".") IN
    IF Len(p) <= 2 /\ All(p[1], Digits) /\ (Len(p) = 2 => All(p[2], Digits)) /\ Len(p[1]) + (IF Len(p) = 2 THEN Len(p[2]) ELSE 0) > 0
    THEN LET w == NoZeros(p[1]) f == IF Len(p) = 2 THEN NoLastZeros(p[2]) ELSE <<>>
             figures == Len(w) + Len(f)
             v == (IF Minus(s) /\ figures > 0 THEN "-" ELSE "") \o (IF w = <<>> THEN "0" ELSE Cat(w)) \o (IF f = <<>> THEN "" ELSE "." \o Cat(f))
         IN IF Len(w) > 30 THEN Open ELSE IF figures <= 6 THEN Ok(v) ELSE Some(v)
    ELSE IF b # <<>> /\ (Has(b, "e") \/ Has(b, "E") \/ Has(b, "x") \/ Has(b, "X") \/ Has(b, "_")) /\ All(b, Digits \cup Letters \cup {"_", ".", "+", "-"}) /\ \E i \in 1..Len(b) : b[i] \in Digits THEN Open
    ELSE Err
Position(s) == LET p == Parts(s, "_") q == [i \in 1..Len(p) |-> Whole(p[i], TRUE)] IN
    IF Len(p) # 3 \/ \E i \in 1..Len(p) : q[i].k = "err" THEN Err
    ELSE IF \E i \in 1..3 : q[i].k = "open" THEN Open ELSE Ok([i \in 1..3 |-> q[i].v])
\* <<layer, speed>>; 0 to 255 as texts
Speeds == {ToString(n) : n \in 0..255}
Pair(s) == LET p == Parts(s, "=") IN
    IF Len(p) # 2 THEN Err
    ELSE LET l == Whole(p[1], FALSE) v == Whole(p[2], FALSE) IN
         IF l.k # "ok" \/ v.k # "ok" \/ v.v \notin Speeds THEN Err
         ELSE IF Minus(p[1]) /\ l.v # "0" THEN Err ELSE Ok(<<l.v, v.v>>)
Table(s) == LET p == Parts(s, ",") q == [i \in 1..Len(p) |-> Pair(p[i])] IN
    IF \E i \in 1..Len(p) : q[i].k = "err" THEN Err
    ELSE IF \E i, j \in 1..Len(p) : i # j /\ q[i].v[1] = q[j].v[1] THEN Open
    ELSE Ok({q[i].v : i \in 1..Len(p)})
RECURSIVE Rows(_)
Rows(rs) == IF rs = <<>> THEN <<>> ELSE (IF All(Head(rs), Blank) THEN <<>> ELSE <<Cat(Head(rs))>>) \o Rows(Tail(rs))
Script(s) == IF Has(s, "\n") THEN Ok(Rows(Parts(s, "\n"))) ELSE Err
Bool(s) == LET t == Cat(s) IN CASE t \in {"1", "t", "T", "TRUE", "true", "True"} -> Ok("true") [] t \in {"0", "f", "F", "FALSE", "false", "False"} -> Ok("false") [] OTHER -> Err
Parse(t, s) == CASE t = "um" -> Whole(s, TRUE) [] t = "int" -> Whole(s, TRUE) [] t = "mm" -> Decimal(s) [] t = "vec" -> Position(s)
                 [] t = "fan" -> Table(s) [] t = "script" -> Script(s) [] t = "bool" -> Bool(s) [] OTHER -> Ok(Cat(s))
\* the types which keep their value if a text is rejected
Keeps == {"vec", "fan", "script"}

(* ---- the command line ---------------------------------------------------------*)
\* every flag has exactly one option of its own
Kind == [n \in {} |-> ""] @@ ("output" :> "str") @@ ("meld-distance" :> "um") @@ ("join-polygon-snap-distance" :> "um") @@ ("finish-polygon-snap-distance" :> "um")
     @@ ("initial-layer-speed" :> "mm") @@ ("layer-speed" :> "mm") @@ ("outer-perimeter-speed" :> "mm") @@ ("move-speed" :> "mm")
     @@ ("initial-layer-thickness" :> "um") @@ ("layer-thickness" :> "um") @@ ("inset-count" :> "int") @@ ("infill-overlap-percent" :> "int")
     @@ ("additional-internal-infill-overlap-percent" :> "int") @@ ("infill-percent" :> "int") @@ ("infill-rotation-degree" :> "int") @@ ("infill-zig-zag" :> "bool")
     @@ ("number-bottom-layers" :> "int") @@ ("number-top-layers" :> "int") @@ ("support-enabled" :> "bool") @@ ("support-threshold-angle" :> "int")
     @@ ("support-top-gap-layers" :> "int") @@ ("support-interface-layers" :> "int") @@ ("support-pattern-spacing" :> "mm") @@ ("support-gap" :> "mm")
     @@ ("skirt-count" :> "int") @@ ("skirt-distance" :> "mm") @@ ("brim-count" :> "int") @@ ("filament-diameter" :> "um") @@ ("initial-bed-temperature" :> "int")
     @@ ("initial-hot-end-temperature" :> "int") @@ ("bed-temperature" :> "int") @@ ("hot-end-temperature" :> "int") @@ ("initial-temperature-layer-count" :> "int")
     @@ ("retraction-speed" :> "mm") @@ ("retraction-length" :> "mm") @@ ("retraction-z-hop" :> "mm") @@ ("fan-speed" :> "fan") @@ ("extrusion-multiplier" :> "int")
     @@ ("extrusion-width" :> "um") @@ ("center" :> "vec") @@ ("force-safe-gcode" :> "bool") @@ ("has-heated-bed" :> "bool") @@ ("start-gcode" :> "script") @@ ("end-gcode" :> "script")
Flags == DOMAIN Kind
\* all arguments, one after the other: options, or rejected
RECURSIVE Given(_, _)
Given(opts, args) ==
    IF args = <<>> THEN [k |-> "ok", v |-> opts]
    ELSE LET a == Head(args) p == Parse(Kind[a[1]], a[2]) IN
         IF p.k = "err" THEN Err ELSE IF p.k # "ok" THEN Open ELSE Given([opts EXCEPT ![a[1]] = p.v], Tail(args))
=============================================================================
