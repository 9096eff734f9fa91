--------------------------------- MODULE Job ---------------------------------
(* A whole print as the printer gets it: start section, layers, end section.   *)
(* The monitor of this module follows the lines of the G-code and tells which  *)
(* of them break the protocol: heaters, fan, custom G-code, order of layers    *)
(* and labels.  What the single moves do is the business of Printer.           *)
(*                                                                             *)
(* o: safe, bed       safe start and stop, heated bed                          *)
(*    ibt, iht        initial temperatures (bed, hot end)                      *)
(*    bt, ht, count   the normal ones, set after count layers                  *)
(*    fan             <<layer, speed>>                                         *)
(*    start, end      custom G-code (see Script)                               *)
(*    n               number of layers                                         *)
(* A line: ev = cmt (comment), cmd (command with code, v: its value of S),     *)
(* mv (a move), raw (anything else); s: the text of it.                        *)
EXTENDS Script, FiniteSets

\* ---- what is wanted -------------------------------------------------------
WarmBed(o) == o.safe /\ o.bed /\ ~Sets(o.start, BedCodes)
WarmHot(o) == o.safe /\ ~Sets(o.start, HotCodes)
CoolBed(o) == o.safe /\ o.bed /\ ~Sets(o.end, BedCodes)
CoolHot(o) == o.safe /\ ~Sets(o.end, HotCodes)
Temps(o, layer) == layer = o.count
FanAt(o, layer) == {o.fan[i][2] : i \in {i \in 1..Len(o.fan) : o.fan[i][1] = layer}}
Height(o, layer) == o.th0 + layer * o.th
Thickness(o, layer) == IF layer = 0 THEN o.th0 ELSE o.th
Speed(o, layer, kind) == IF layer = 0 THEN o.first ELSE IF kind = "WALL-OUTER" THEN o.outer ELSE o.speed
\* the outermost wall comes last, the others from outside to inside
Rank(inset) == IF inset = 0 THEN 1000000 ELSE inset
WallKind(inset) == IF inset = 0 THEN "WALL-OUTER" ELSE "WALL-INNER"
Kinds == {"SKIRT", "WALL-OUTER", "WALL-INNER", "SUPPORT", "FILL"}
\* retractions are judged for these
Judged(kind) == kind \in {"WALL-OUTER", "WALL-INNER", "SUPPORT", "FILL"}

\* ---- the monitor -----------------------------------------------------------
\* phase  start, layers, end
\* s, e   lines of the custom start and end G-code which have been seen
\* seen   codes of the commands since the phase, or the layer, began
\* any    has anything been moved at all, here: and in this layer
\* kind   label of what is being printed
JobStart == [phase |-> "start", layer |-> -1, s |-> 0, e |-> 0, seen |-> {}, any |-> FALSE, here |-> FALSE, kind |-> "", sub |-> ""]
JBad(ok, prop, why, info) == IF ok THEN {} ELSE {[prop |-> prop, why |-> why, info |-> info]}

NextStart(o, j) == IF j.phase = "start" /\ j.s < Len(o.start) THEN <<StartLine(o.start[j.s + 1], o.ibt, o.iht)>> ELSE <<>>
NextEnd(o, j) == IF j.phase = "end" /\ j.e < Len(o.end) THEN <<EndLine(o.end[j.e + 1])>> ELSE <<>>
\* a comment has been stripped of its first sign
FullText(x) == IF x.ev = "cmt" THEN ";" \o x.s ELSE x.s
IsCustom(o, j, x) == "s" \in DOMAIN x /\ FullText(x) \in {NextStart(o, j)[i] : i \in 1..Len(NextStart(o, j))} \cup {NextEnd(o, j)[i] : i \in 1..Len(NextEnd(o, j))}
Custom(o, j, x) == [j |-> IF j.phase = "start" THEN [j EXCEPT !.s = @ + 1, !.any = @ \/ x.ev = "mv"] ELSE [j EXCEPT !.e = @ + 1], bad |-> {}]

\* a command which was generated
Command(o, j, x) ==
    LET once == JBad(x.code \notin j.seen, IF x.code \in {"M106", "M107"} THEN "C19" ELSE "C18", "a command is given twice", x.s)
        k == [j EXCEPT !.seen = @ \cup {x.code}]
        prop == IF x.code \in {"M106", "M107"} THEN "C19" ELSE IF x.code \in HotCodes \cup BedCodes THEN "C18" ELSE "C20"
    IN CASE j.phase = "start" /\ x.code = "M190" ->
              [j |-> k, bad |-> once \cup JBad(WarmBed(o), "C18", "the bed is heated although it must not be", x.s)
                               \cup JBad(x.v = o.ibt, "C18", "not the initial temperature of the bed", x.s) \cup JBad(~j.any, "C18", "heats after a move", x.s)]
         [] j.phase = "start" /\ x.code = "M109" ->
              [j |-> k, bad |-> once \cup JBad(WarmHot(o), "C18", "the hot end is heated although it must not be", x.s)
                               \cup JBad(x.v = o.iht, "C18", "not the initial temperature of the hot end", x.s) \cup JBad(~j.any, "C18", "heats after a move", x.s)]
         [] j.phase = "layers" /\ x.code = "M140" ->
              [j |-> k, bad |-> once \cup JBad(Temps(o, j.layer), "C18", "the temperature of the bed is set in a wrong layer", [layer |-> j.layer, cmd |-> x.s])
                               \cup JBad(o.bed, "C18", "a bed which is not heated is addressed", x.s)
                               \cup JBad(x.v = o.bt, "C18", "not the temperature of the bed", x.s) \cup JBad(~j.here, "C18", "the temperature is set after printing began", x.s)]
         [] j.phase = "layers" /\ x.code = "M104" ->
              [j |-> k, bad |-> once \cup JBad(Temps(o, j.layer), "C18", "the temperature of the hot end is set in a wrong layer", [layer |-> j.layer, cmd |-> x.s])
                               \cup JBad(x.v = o.ht, "C18", "not the temperature of the hot end", x.s) \cup JBad(~j.here, "C18", "the temperature is set after printing began", x.s)]
         [] j.phase = "end" /\ x.code = "M140" ->
              [j |-> k, bad |-> once \cup JBad(CoolBed(o), "C18", "the bed is switched off although it must not be", x.s) \cup JBad(x.v = 0, "C18", "not switched off", x.s)]
         [] j.phase = "end" /\ x.code = "M104" ->
              [j |-> k, bad |-> once \cup JBad(CoolHot(o), "C18", "the hot end is switched off although it must not be", x.s) \cup JBad(x.v = 0, "C18", "not switched off", x.s)]
         [] j.phase = "layers" /\ x.code = "M106" ->
              [j |-> k, bad |-> once \cup JBad(FanAt(o, j.layer) = {x.v}, "C19", "a wrong speed of the fan", [layer |-> j.layer, cmd |-> x.s])
                               \cup JBad(~j.here, "C19", "the fan is set after printing began", x.s)]
         [] j.phase = "layers" /\ x.code = "M107" ->
              [j |-> k, bad |-> once \cup JBad(FanAt(o, j.layer) = {0}, "C19", "the fan is switched off", [layer |-> j.layer, cmd |-> x.s])
                               \cup JBad(~j.here, "C19", "the fan is set after printing began", x.s)]
         [] j.phase = "start" /\ x.code = "G92" -> [j |-> j, bad |-> {}]
         [] OTHER -> [j |-> j, bad |-> JBad(FALSE, prop, "a command nobody asked for", x.s)]

\* what has to have happened when a phase or a layer is over
Over(o, j) ==
    CASE j.phase = "start" ->
           JBad(j.s = Len(o.start), "C18", "the custom start G-code is not complete before the first layer", [next |-> NextStart(o, j)])
           \cup JBad(WarmBed(o) => "M190" \in j.seen, "C18", "the bed is not heated before printing", 0)
           \cup JBad(WarmHot(o) => "M109" \in j.seen, "C18", "the hot end is not heated before printing", 0)
      [] j.phase = "layers" -> IF j.here THEN {} ELSE     \* otherwise judged when the first move was made
           JBad(Temps(o, j.layer) => "M104" \in j.seen, "C18", "the normal temperature of the hot end is not set", j.layer)
           \cup JBad(Temps(o, j.layer) /\ o.bed => "M140" \in j.seen, "C18", "the normal temperature of the bed is not set", j.layer)
           \cup JBad(FanAt(o, j.layer) # {} => {"M106", "M107"} \cap j.seen # {}, "C19", "the fan is not set", j.layer)
      [] OTHER ->
           JBad(j.e = Len(o.end), "C18", "the custom end G-code is not complete", [next |-> NextEnd(o, j)])
           \cup JBad(CoolBed(o) => "M140" \in j.seen, "C18", "the bed is not switched off", 0)
           \cup JBad(CoolHot(o) => "M104" \in j.seen, "C18", "the hot end is not switched off", 0)
Layer(o, j, n) == [j |-> [j EXCEPT !.phase = "layers", !.layer = n, !.seen = {}, !.here = FALSE, !.kind = "", !.sub = ""],
                   bad |-> Over(o, j) \cup JBad(j.phase # "end" /\ n = j.layer + 1 /\ n < o.n, "C03", "a layer is missing, repeated or out of order", [after |-> j.layer, layer |-> n])]
End(o, j) == [j |-> [j EXCEPT !.phase = "end", !.seen = {}, !.kind = "", !.sub = ""],
              bad |-> Over(o, j) \cup JBad(j.phase = "layers" /\ j.layer = o.n - 1, "C03", "the end section does not come after the last layer", j.layer)]
Finish(o, j) == Over(o, j) \cup JBad(j.phase = "end", "C03", "the G-code has no end", j)

\* a generated move: print = something is extruded
Moved(o, j, print) == [j |-> [j EXCEPT !.any = TRUE, !.here = TRUE],
                       bad |-> (IF j.phase = "layers" THEN Over(o, j) ELSE {})
                               \cup JBad(j.phase = "layers", "C18", "a move outside of the layers", j.phase)
                               \cup JBad(~print \/ j.kind \in Kinds, "C20", "something without a known label is printed", j.kind)]
=============================================================================
