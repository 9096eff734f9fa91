---------------------------- MODULE PipelineGen ----------------------------
(* Prints every configuration of Pipeline as a test case.                   *)
EXTENDS Pipeline, Json
ASSUME \A c \in Cfgs : PrintT("CASE " \o ToJson(c))
GenInit == Init
GenNext == UNCHANGED vars
============================================================================
