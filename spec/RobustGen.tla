------------------------------ MODULE RobustGen ------------------------------
(* Prints runs: models of all kinds, with options of which one or two have an   *)
(* unusual value.  A value is <<name, text, class>>: class "ok" has to work,     *)
(* "no" cannot work at all, "odd" is up to the code.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Stride    \* 0: no pairs, n: every n-th pair
Kinds == <<"box", "boxes", "floating", "thin", "wide", "solid", "open", "ring", "soup", "single", "flat", "wall", "needle", "tiny", "dup", "collapsed", "flipped", "touching", "overlap", "cone", "upside", "strips">>
Ok(n, s) == [i \in 1..Len(s) |-> <<n, s[i], "ok">>]
Odd(n, s) == [i \in 1..Len(s) |-> <<n, s[i], "odd">>]
No(n, s) == [i \in 1..Len(s) |-> <<n, s[i], "no">>]
Values ==
   Odd("meld-distance", <<"-5", "400">>) \o Ok("meld-distance", <<"1", "30">>) \o Odd("meld-distance", <<"0">>)
\o Odd("join-polygon-snap-distance", <<"-1", "100000">>) \o Ok("join-polygon-snap-distance", <<"0", "1">>)
\o Odd("finish-polygon-snap-distance", <<"-1", "100000">>) \o Ok("finish-polygon-snap-distance", <<"0", "1">>)
\o Odd("initial-layer-thickness", <<"-100000", "-300", "0">>) \o Ok("initial-layer-thickness", <<"1", "333", "100000">>)
\o No("layer-thickness", <<"-200", "-1", "0">>) \o Ok("layer-thickness", <<"7", "123", "100000">>)
\o Odd("initial-layer-speed", <<"-5", "0">>) \o Ok("initial-layer-speed", <<"0.5", "100000">>)
\o Odd("layer-speed", <<"-5", "0">>) \o Ok("layer-speed", <<"0.5", "100000">>)
\o Odd("outer-perimeter-speed", <<"-5", "0">>) \o Ok("outer-perimeter-speed", <<"0.5">>)
\o Odd("move-speed", <<"-5", "0">>) \o Ok("move-speed", <<"0.5", "100000">>)
\o No("inset-count", <<"-3", "-1", "0">>) \o Ok("inset-count", <<"1", "3", "40">>)
\o Odd("infill-overlap-percent", <<"-1000", "-1", "1000">>) \o Ok("infill-overlap-percent", <<"0", "100">>)
\o Odd("additional-internal-infill-overlap-percent", <<"-1000", "-50", "100000">>) \o Ok("additional-internal-infill-overlap-percent", <<"0", "50">>)
\o Odd("infill-percent", <<"-20", "3000", "100000000">>) \o Ok("infill-percent", <<"0", "1", "100", "150">>)
\o Ok("infill-rotation-degree", <<"-1000", "0", "1", "89", "90", "360000001">>)
\o Odd("number-bottom-layers", <<"-1">>) \o Ok("number-bottom-layers", <<"0", "1", "1000">>)
\o Odd("number-top-layers", <<"-1">>) \o Ok("number-top-layers", <<"0", "1", "1000">>)
\o Ok("infill-zig-zag", <<"true">>) \o Ok("support-enabled", <<"true">>) \o Ok("force-safe-gcode", <<"false">>) \o Ok("has-heated-bed", <<"false">>)
\o Odd("support-threshold-angle", <<"-180", "-90", "-89", "-1", "90", "91", "180", "270", "1000000007">>) \o Ok("support-threshold-angle", <<"0", "1", "45", "89">>)
\o Odd("support-top-gap-layers", <<"-1000", "-1">>) \o Ok("support-top-gap-layers", <<"0", "1", "1000">>)
\o Odd("support-interface-layers", <<"-1">>) \o Ok("support-interface-layers", <<"0", "1", "1000">>)
\o Odd("support-pattern-spacing", <<"-3", "0", "0.0004">>) \o Ok("support-pattern-spacing", <<"0.3", "1", "20">>)
\o Odd("support-gap", <<"-0.7">>) \o Ok("support-gap", <<"0", "20">>)
\o Odd("skirt-count", <<"-1">>) \o Ok("skirt-count", <<"0", "1", "40">>)
\o Odd("skirt-distance", <<"-3", "-100">>) \o Ok("skirt-distance", <<"0", "100">>)
\o Odd("brim-count", <<"-1">>) \o Ok("brim-count", <<"1", "3", "40">>)
\o No("filament-diameter", <<"0">>) \o Odd("filament-diameter", <<"-1750">>) \o Ok("filament-diameter", <<"1", "100000">>)
\o Ok("initial-bed-temperature", <<"0", "-1">>) \o Ok("initial-hot-end-temperature", <<"0", "1000">>) \o Ok("bed-temperature", <<"0", "-1">>) \o Ok("hot-end-temperature", <<"0", "1000">>)
\o Odd("initial-temperature-layer-count", <<"-1">>) \o Ok("initial-temperature-layer-count", <<"0", "1", "1000">>)
\o Odd("retraction-speed", <<"-30">>) \o Ok("retraction-speed", <<"0", "1000">>)
\o Odd("retraction-length", <<"-2">>) \o Ok("retraction-length", <<"0", "100">>)
\o Odd("retraction-z-hop", <<"-1">>) \o Ok("retraction-z-hop", <<"1", "100">>)
\o Odd("extrusion-multiplier", <<"-100", "0">>) \o Ok("extrusion-multiplier", <<"1", "1000">>)
\o No("extrusion-width", <<"-400", "0">>) \o Odd("extrusion-width", <<"30", "9999", "10001", "100000">>) \o Ok("extrusion-width", <<"150", "333", "1500">>)
\o Ok("center", <<"0_0_0", "-200000_300000_0">>) \o Odd("center", <<"0_0_-500", "0_0_3000">>)
\o Ok("fan-speed", <<"0=0", "0=255,1=3,7=0">>)
N == Len(Values)
Out(kind, set) == PrintT("CASE " \o ToJson([kind |-> kind, set |-> set]))
VARIABLE q
ASSUME /\ \A m \in 1..Len(Kinds) : Out(Kinds[m], <<>>)
       /\ \A m \in 1..Len(Kinds) : \A a \in 1..N : (Stride # 1 => (a + 3 * m) % 4 = 0) => Out(Kinds[m], <<Values[a]>>)
       /\ Stride > 0 => \A a, b \in 1..N : (a < b /\ Values[a][1] # Values[b][1] /\ (3 * a + 7 * b) % Stride = 0) => Out(Kinds[((a * 5 + b * 11) % Len(Kinds)) + 1], <<Values[a], Values[b]>>)
GInit == q = 0
GNext == UNCHANGED q
=============================================================================
