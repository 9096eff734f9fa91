------------------------------ MODULE OptionsMC ------------------------------
(* The command line as state machine: every argument changes only its own      *)
(* option, the last one counts, the first which is wrong ends everything.      *)
(* And: writing a value and parsing it gives the value (Whole, Decimal, ...).  *)
EXTENDS Options
CONSTANTS MaxArgs, Numbers
Chars(n) == LET m == IF n < 0 THEN -n ELSE n IN
    (IF n < 0 THEN <<"-">> ELSE <<>>)
    \o (IF m < 10 THEN <<ToString(m)>> ELSE IF m < 100 THEN <<ToString(m \div 10), ToString(m % 10)>> ELSE <<ToString(m \div 100), ToString((m \div 10) % 10), ToString(m % 10)>>)
ASSUME \A n \in -Numbers..Numbers : Whole(Chars(n), TRUE) = Ok(ToString(n)) /\ Whole(Chars(n), FALSE) = Ok(ToString(n))
ASSUME \A n \in 0..Numbers : Whole(<<"+">> \o Chars(n), TRUE) = Ok(ToString(n))
ASSUME \A n, m \in 0..9 : Decimal(Chars(n) \o <<".">> \o Chars(m)) = Ok(IF m = 0 THEN ToString(n) ELSE ToString(n) \o "." \o ToString(m))
ASSUME Decimal(<<".">>) = Err /\ Decimal(<<"1", ".">>) = Ok("1") /\ Decimal(<<"-", ".", "5", "0">>) = Ok("-0.5") /\ Decimal(<<"n", "a", "n">>) = Err /\ Decimal(<<"-", "0">>) = Ok("0")
ASSUME \A n, m, k \in {-12, 0, 7} : Position(Chars(n) \o <<"_">> \o Chars(m) \o <<"_">> \o Chars(k)) = Ok(<<ToString(n), ToString(m), ToString(k)>>)
ASSUME \A n \in 0..2 : \A v \in -2..300 : Table(Chars(n) \o <<"=">> \o Chars(v)) = IF v \in 0..255 THEN Ok({<<ToString(n), ToString(v)>>}) ELSE Err
ASSUME Whole(Most, TRUE).k = "ok" /\ Whole(Least, TRUE).k = "err" /\ Whole(<<"-">> \o Least, TRUE).k = "ok"

Names == {"fan-speed", "center", "end-gcode", "layer-thickness", "layer-speed", "infill-zig-zag"}
Texts == {<<>>, <<"1">>, <<"-", "1">>, <<"x">>, <<"1", "=", "2">>, <<"1", "=", "2", "5", "6">>, <<"1", "_", "2", "_", "3">>, <<"a", "\n">>, <<"0", ".", "5">>, <<"t", "r", "u", "e">>}
Default(n) == "default"
VARIABLES opts, all, args, log, ended
vars == <<opts, all, args, log, ended>>
Init == opts = [n \in Flags |-> Default(n)] /\ all \in UNION {[1..k -> Names \X Texts] : k \in 0..MaxArgs} /\ args = all /\ log = <<>> /\ ended = "no"
Take == /\ ended = "no" /\ args # <<>> /\ UNCHANGED all
        /\ LET a == Head(args) p == Parse(Kind[a[1]], a[2]) IN
           CASE p.k = "err" -> ended' = "wrong" /\ UNCHANGED <<opts, args, log>>
             [] p.k = "ok" -> opts' = [opts EXCEPT ![a[1]] = p.v] /\ log' = Append(log, <<a[1], p.v>>) /\ args' = Tail(args) /\ UNCHANGED ended
             [] OTHER -> ended' = "open" /\ UNCHANGED <<opts, args, log>>
Over == ended = "no" /\ args = <<>> /\ ended' = "done" /\ UNCHANGED <<opts, all, args, log>>
Next == Take \/ Over
Spec == Init /\ [][Next]_vars
Last(n) == {i \in 1..Len(log) : log[i][1] = n /\ \A k \in i + 1..Len(log) : log[k][1] # n}
Own == \A n \in Flags : opts[n] = IF Last(n) = {} THEN Default(n) ELSE log[CHOOSE i \in Last(n) : TRUE][2]
\* the state machine and Given agree
Agrees == LET g == Given([n \in Flags |-> Default(n)], all) IN
    CASE ended = "done" -> g = Ok(opts) [] ended = "wrong" -> g.k = "err" [] ended = "open" -> g.k = "open" [] OTHER -> TRUE
Rejects == [][ended' = "wrong" => opts' = opts]_vars
=============================================================================
