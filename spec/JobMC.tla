-------------------------------- MODULE JobMC --------------------------------
(* Two generators against the monitor of Job.                                  *)
(* The orderly one does what the renderers do, one after the other, for every   *)
(* combination of options: the monitor must never object, and the print has to  *)
(* end with every planned path printed exactly once.                            *)
(* The free one gives any lines in any order: whatever it does without the      *)
(* monitor objecting must be safe for the printer (Safe).                       *)
EXTENDS Job
CONSTANTS Free, MaxN, MaxScript, MaxFree, CountMax
VARIABLES o, plan, j, bad, pc, left, phys, n
vars == <<o, plan, j, bad, pc, left, phys, n>>

Line(pre, off, code, args) == [pre |-> pre, off |-> off, code |-> code, args |-> args]
StartLines == {Line("", FALSE, "M109", <<" S", "HOT">>), Line(" ", FALSE, "M190", <<" S", "BED">>), Line("", TRUE, "M104", <<" S9">>), Line("", FALSE, "G1", <<" Z5 F5000">>)}
EndLines == {Line("", FALSE, "M104", <<" S0">>), Line("", FALSE, "M140", <<" S0">>), Line("", TRUE, "M140", <<" S0">>)}
Scripts(lines) == UNION {[1..k -> lines] : k \in 0..MaxScript}
Options == [safe : BOOLEAN, bed : BOOLEAN, ibt : {60}, iht : {200}, bt : {50}, ht : {190}, count : 0..CountMax, fan : {<<>>, <<<<0, 0>>>>, <<<<1, 255>>, <<0, 7>>>>},
            start : Scripts(StartLines), end : Scripts(EndLines), n : 1..MaxN, th0 : {300}, th : {200}, first : {1}, outer : {2}, speed : {3}]

\* what a line does to the real thing: temperatures (-1: never set), fan, waited for
Ev(cmd, v, s) == [ev |-> "cmd", code |-> cmd, v |-> v, s |-> s]
OfScript(ln, start) == LET t == IF start THEN StartLine(ln, o.ibt, o.iht) ELSE EndLine(ln) IN
    IF ln.off THEN [ev |-> "cmt", s |-> ln.code \o Args(ln.args, ToString(o.ibt), ToString(o.iht))]
    ELSE IF ln.code = "G1" THEN [ev |-> "mv", s |-> t]
    ELSE [ev |-> "cmd", code |-> ln.code, s |-> t,
          v |-> CASE ln.args = <<" S", "HOT">> -> o.iht [] ln.args = <<" S", "BED">> -> o.ibt [] OTHER -> 0]
Physical(p, x) == CASE x.ev = "cmd" /\ x.code \in HotCodes -> [p EXCEPT !.hot = x.v]
                    [] x.ev = "cmd" /\ x.code \in BedCodes -> [p EXCEPT !.bed = x.v]
                    [] x.ev = "cmd" /\ x.code = "M106" -> [p EXCEPT !.fan = x.v]
                    [] x.ev = "cmd" /\ x.code = "M107" -> [p EXCEPT !.fan = 0]
                    [] x.ev = "print" -> [p EXCEPT !.cold = @ \/ p.hot <= 0, !.made = Append(@, [layer |-> j.layer, hot |-> p.hot, bed |-> p.bed, fan |-> p.fan])]
                    [] OTHER -> p
Say(x) == LET r == CASE x.ev \in {"move", "print"} -> Moved(o, j, x.ev = "print")
                     [] x.ev = "layer" -> Layer(o, j, x.n)
                     [] x.ev = "end" -> End(o, j)
                     [] x.ev = "label" -> [j |-> [j EXCEPT !.kind = x.kind], bad |-> {}]
                     [] x.ev = "done" -> [j |-> j, bad |-> Finish(o, j)]
                     [] IsCustom(o, j, x) -> Custom(o, j, x)
                     [] x.ev = "cmd" -> Command(o, j, x)
                     [] OTHER -> [j |-> j, bad |-> {}]
          IN j' = r.j /\ bad' = bad \cup r.bad /\ phys' = Physical(phys, x)

Init == /\ o \in Options
        /\ plan \in [0..o.n - 1 -> SUBSET {"WALL-OUTER", "FILL"}]
        /\ j = JobStart /\ bad = {} /\ pc = <<"warm">> /\ left = {} /\ n = 0
        /\ phys = [hot |-> -1, bed |-> -1, fan |-> 0, cold |-> FALSE, made |-> <<>>]

\* ---- the orderly generator --------------------------------------------------
Go(next, x) == Say(x) /\ pc' = next /\ UNCHANGED <<o, plan, n>>
Skip(next) == pc' = next /\ UNCHANGED <<o, plan, j, bad, left, phys, n>>
Warm == /\ pc = <<"warm">> /\ UNCHANGED left
        /\ IF o.safe /\ o.bed /\ ~Sets(o.start, BedCodes) THEN Go(<<"warm2">>, Ev("M190", o.ibt, "M190 S60 ;")) ELSE Skip(<<"warm2">>)
Warm2 == /\ pc = <<"warm2">> /\ UNCHANGED left
         /\ IF o.safe /\ ~Sets(o.start, HotCodes) THEN Go(<<"script", 1>>, Ev("M109", o.iht, "M109 S200 ;")) ELSE Skip(<<"script", 1>>)
Script == /\ pc[1] = "script" /\ UNCHANGED left
          /\ IF pc[2] <= Len(o.start) THEN Go(<<"script", pc[2] + 1>>, OfScript(o.start[pc[2]], TRUE)) ELSE Skip(<<"layer", 0>>)
NewLayer == pc[1] = "layer" /\ Go(<<"fan", pc[2]>>, [ev |-> "layer", n |-> pc[2]]) /\ left' = plan[pc[2]]
Fan == /\ pc[1] = "fan" /\ UNCHANGED left
       /\ LET f == FanAt(o, pc[2]) IN
          IF f = {} THEN Skip(<<"bedtemp", pc[2]>>)
          ELSE LET v == CHOOSE v \in f : TRUE IN Go(<<"bedtemp", pc[2]>>, IF v = 0 THEN Ev("M107", -1, "M107") ELSE Ev("M106", v, "M106 S"))
BedTemp == /\ pc[1] = "bedtemp" /\ UNCHANGED left
           /\ IF pc[2] = o.count /\ o.bed THEN Go(<<"hottemp", pc[2]>>, Ev("M140", o.bt, "M140 S50")) ELSE Skip(<<"hottemp", pc[2]>>)
HotTemp == /\ pc[1] = "hottemp" /\ UNCHANGED left
           /\ IF pc[2] = o.count THEN Go(<<"print", pc[2]>>, Ev("M104", o.ht, "M104 S190")) ELSE Skip(<<"print", pc[2]>>)
Label == /\ pc[1] = "print" /\ left # {} /\ UNCHANGED left
         /\ Go(<<"path", pc[2]>>, [ev |-> "label", kind |-> IF "WALL-OUTER" \in left THEN "WALL-OUTER" ELSE "FILL"])
Path == pc[1] = "path" /\ Go(<<"print", pc[2]>>, [ev |-> "print"]) /\ left' = left \ {j.kind}
Next0 == /\ pc[1] = "print" /\ left = {} /\ UNCHANGED left
         /\ IF pc[2] + 1 < o.n THEN Skip(<<"layer", pc[2] + 1>>) ELSE Go(<<"cool">>, [ev |-> "end"])
Cool == /\ pc = <<"cool">> /\ UNCHANGED left
        /\ IF o.safe /\ ~Sets(o.end, HotCodes) THEN Go(<<"cool2">>, Ev("M104", 0, "M104 S0 ;")) ELSE Skip(<<"cool2">>)
Cool2 == /\ pc = <<"cool2">> /\ UNCHANGED left
         /\ IF o.safe /\ o.bed /\ ~Sets(o.end, BedCodes) THEN Go(<<"ending", 1>>, Ev("M140", 0, "M140 S0 ;")) ELSE Skip(<<"ending", 1>>)
Ending == /\ pc[1] = "ending" /\ UNCHANGED left
          /\ IF pc[2] <= Len(o.end) THEN Go(<<"ending", pc[2] + 1>>, OfScript(o.end[pc[2]], FALSE)) ELSE Go(<<"done">>, [ev |-> "done"])
Orderly == Warm \/ Warm2 \/ Script \/ NewLayer \/ Fan \/ BedTemp \/ HotTemp \/ Label \/ Path \/ Next0 \/ Cool \/ Cool2 \/ Ending

\* ---- the free one -------------------------------------------------------------
Anything == {Ev("M190", 60, "M190"), Ev("M109", 200, "M109"), Ev("M140", 50, "M140"), Ev("M104", 190, "M104"), Ev("M104", 0, "M104"), Ev("M140", 0, "M140"),
             Ev("M106", 255, "M106"), Ev("M107", -1, "M107"), [ev |-> "print"], [ev |-> "end"], [ev |-> "label", kind |-> "FILL"], [ev |-> "done"]}
            \cup {[ev |-> "layer", n |-> k] : k \in 0..o.n} \cup {OfScript(o.start[i], TRUE) : i \in 1..Len(o.start)} \cup {OfScript(o.end[i], FALSE) : i \in 1..Len(o.end)}
FreeStep == /\ n < MaxFree /\ pc # <<"done">> /\ bad = {}
            /\ \E x \in Anything : Say(x) /\ pc' = IF x.ev = "done" THEN <<"done">> ELSE pc
            /\ n' = n + 1 /\ UNCHANGED <<o, plan, left>>

Next == IF Free THEN FreeStep ELSE Orderly
Spec == Init /\ [][Next]_vars /\ WF_vars(Orderly)

(* ---- what has to hold ------------------------------------------------------- *)
Accepted == ~Free => bad = {}
\* the real effects, whenever the monitor has not objected
Safe == bad = {} =>
    /\ o.safe => ~phys.cold
    /\ o.safe /\ o.bed => \A i \in 1..Len(phys.made) : phys.made[i].bed > 0
    /\ (~o.bed /\ ~Sets(o.start, BedCodes) /\ ~Sets(o.end, BedCodes)) => phys.bed = -1
    /\ (pc = <<"done">> /\ o.safe) => (phys.hot = 0 \/ Sets(o.end, HotCodes)) /\ (phys.bed <= 0 \/ ~o.bed \/ Sets(o.end, BedCodes))
    \* after the configured number of layers everything is printed with the normal temperatures
    /\ \A i \in 1..Len(phys.made) : LET q == phys.made[i] IN
         /\ q.layer >= o.count => q.hot = o.ht /\ (o.bed => q.bed = o.bt)
         /\ (o.safe /\ q.layer < o.count /\ ~Sets(o.start, HotCodes)) => q.hot = o.iht
         /\ q.fan = (LET k == {l \in 0..q.layer : FanAt(o, l) # {}} IN IF k = {} THEN 0 ELSE CHOOSE v \in FanAt(o, CHOOSE l \in k : \A l2 \in k : l2 <= l) : TRUE)
    /\ pc = <<"done">> => j.layer = o.n - 1
Once == ~Free /\ pc = <<"done">> => \A l \in 0..o.n - 1 : Cardinality({i \in 1..Len(phys.made) : phys.made[i].layer = l}) = Cardinality(plan[l])
Ends == ~Free => <>(pc = <<"done">>)
=============================================================================
