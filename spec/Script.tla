------------------------------- MODULE Script -------------------------------
(* Custom start and end G-code.  A line is [pre, off, code, args]: the        *)
(* command code with its arguments after the white space pre, commented out   *)
(* if off.  An argument is a text or one of the placeholders BED and HOT.     *)
EXTENDS Integers, Sequences, TLC

HotCodes == {"M104", "M109"}
BedCodes == {"M140", "M190"}
\* does a script contain a command with one of the codes
Sets(script, codes) == \E i \in 1..Len(script) : ~script[i].off /\ script[i].code \in codes

RECURSIVE Args(_, _, _)
Args(as, bed, hot) == IF as = <<>> THEN ""
                      ELSE (CASE Head(as) = "BED" -> bed [] Head(as) = "HOT" -> hot [] OTHER -> Head(as)) \o Args(Tail(as), bed, hot)
Text(line, bed, hot) == line.pre \o (IF line.off THEN ";" ELSE "") \o line.code \o Args(line.args, bed, hot)
\* as configured, and as it has to appear in the G-code: the placeholders of the start code are replaced
Configured(line) == Text(line, "{print_bed_temperature}", "{print_temperature}")
StartLine(line, bedTemp, hotTemp) == Text(line, ToString(bedTemp), ToString(hotTemp))
EndLine(line) == Configured(line)
=============================================================================
