------------------------------ MODULE Pipeline ------------------------------
(* C01: one slicing run (goslice.go, Process).                               *)
(*                                                                           *)
(* A run is configured with a number of modifiers, an output target and a    *)
(* step at which the environment fails.  Values are abstracted to tokens:    *)
(* a step gets a token and hands on another one, so that "each step gets     *)
(* exactly the result of the step before" is visible in the state.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxMods

VARIABLES
    cfg,     \* the configuration of the run
    pc,      \* the last step that was done
    cur,     \* the token of the value the next step gets
    mi,      \* the modifiers initialised so far
    md,      \* how many modifiers have been applied
    gi,      \* is the generator initialised
    err,     \* the step which failed, "none" or "other"
    files    \* name |-> content token

vars == <<cfg, pc, cur, mi, md, gi, err, files>>

Steps(mods) == {"read", "optimize", "slice", "generate", "write"} \cup {"modify" \o ToString(i) : i \in 1..mods}

(* Targets the file system refuses: in a missing folder, on a full device.   *)
BadTargets == {"nodir", "full"}

(* Every configuration a run is checked with; the test cases are these.      *)
Cfgs ==
    {c \in [mods : 0..MaxMods, fail : UNION {Steps(m) : m \in 0..MaxMods} \cup {"none"},
            faces : {0, 1, 12}, layers : {0, 1, 2, 3, 40}, target : {"default", "set", "input", "nodir", "full"},
            exists : BOOLEAN, writer : {"fake", "real"}, big : BOOLEAN] :
        /\ c.fail \in Steps(c.mods) \cup {"none"}
        /\ (c.writer = "real") => c.fail # "write"
        /\ (c.target \in BadTargets) => (~c.exists /\ c.writer = "real")
        /\ (c.target = "input") => (~c.exists /\ c.layers = 3)
        /\ (c.layers # 3) => (c.faces = 1 /\ c.target = "set" /\ c.exists)
        /\ c.big => (c.writer = "real" /\ c.fail = "none" /\ c.mods = 1)
        /\ (c.faces # 1) => (c.mods = 1)}

Input == "in/model.v1.stl"
Dest(c) == CASE c.target = "default" -> "in/model.v1.stl.gcode"
             [] c.target = "set" -> "out/result.g"
             [] c.target = "input" -> Input
             [] c.target = "nodir" -> "missing/result.g"
             [] c.target = "full" -> "/dev/full"

Files0(c) == {[name |-> Input, tok |-> "input"]}
             \cup (IF c.exists THEN {[name |-> Dest(c), tok |-> "old"]} ELSE {})

(* The layers after n modifiers: each one has been changed by each modifier. *)
LayerTok(n, layers) ==
    LET RECURSIVE T(_), All(_)
        T(k) == IF k = 0 THEN "L" ELSE T(k - 1) \o ToString(k)
        All(k) == IF k = 0 THEN "" ELSE All(k - 1) \o T(n)
    IN All(layers)

(* What a step does to the rest of the state if the environment lets it      *)
(* fail or not.                                                              *)
Fin(name, res, next, tok) ==
    IF res = "err" THEN pc' = "failed" /\ err' = name /\ UNCHANGED cur
                   ELSE pc' = next /\ cur' = tok /\ UNCHANGED err

NoCfg == [mods |-> 0, fail |-> "none", faces |-> 0, layers |-> 0, target |-> "none", exists |-> FALSE, writer |-> "none", big |-> FALSE]

Init == /\ cfg = NoCfg /\ pc = "idle" /\ cur = "none" /\ mi = {} /\ md = 0 /\ gi = FALSE
        /\ err = "none" /\ files = {}

Begin(c) == /\ pc = "idle"
            /\ cfg' = c /\ pc' = "begun" /\ cur' = "none" /\ mi' = {} /\ md' = 0 /\ gi' = FALSE
            /\ err' = "none" /\ files' = Files0(c)

Read(arg, res) == /\ pc = "begun"
                  /\ arg = Input
                  /\ Fin("read", res, "read", "M")
                  /\ UNCHANGED <<cfg, mi, md, gi, files>>

(* A model without any face is refused before anything else happens.         *)
Refuse == /\ pc = "read" /\ cfg.faces = 0
          /\ pc' = "failed" /\ err' = "other"
          /\ UNCHANGED <<cfg, cur, mi, md, gi, files>>

Optimize(arg, res) == /\ pc = "read" /\ cfg.faces > 0
                      /\ arg = cur
                      /\ Fin("optimize", res, "optimized", "O")
                      /\ UNCHANGED <<cfg, mi, md, gi, files>>

Slice(arg, res) == /\ pc = "optimized"
                   /\ arg = cur
                   /\ Fin("slice", res, "sliced", LayerTok(0, cfg.layers))
                   /\ UNCHANGED <<cfg, mi, md, gi, files>>

(* Modifiers and the generator are initialised with the optimised model, at  *)
(* any time after it exists, but before they are used.                       *)
MInit(i, arg) == /\ pc \in {"optimized", "sliced"} /\ i \in 1..cfg.mods /\ i \notin mi /\ i > md
                 /\ arg = "O"
                 /\ mi' = mi \cup {i}
                 /\ UNCHANGED <<cfg, pc, cur, md, gi, err, files>>

GInit(arg) == /\ pc \in {"optimized", "sliced"} /\ ~gi
              /\ arg = "O"
              /\ gi' = TRUE
              /\ UNCHANGED <<cfg, pc, cur, mi, md, err, files>>

Modify(i, arg, res) == /\ pc = "sliced" /\ i = md + 1 /\ i <= cfg.mods /\ i \in mi
                       /\ arg = cur
                       /\ md' = i
                       /\ Fin("modify" \o ToString(i), res, "sliced", LayerTok(i, cfg.layers))
                       /\ UNCHANGED <<cfg, mi, gi, files>>

Generate(arg, res) == /\ pc = "sliced" /\ md = cfg.mods /\ gi
                      /\ arg = cur
                      /\ Fin("generate", res, "generated", "G")
                      /\ UNCHANGED <<cfg, mi, md, gi, files>>

Write(arg, dest, res) ==
    /\ pc = "generated"
    /\ arg = cur /\ dest = Dest(cfg)
    /\ IF res = "err" THEN pc' = "failed" /\ err' = "write" /\ UNCHANGED files
       ELSE /\ pc' = "written" /\ UNCHANGED err
            /\ files' = {f \in files : f.name # dest} \cup {[name |-> dest, tok |-> arg]}
    /\ UNCHANGED <<cfg, cur, mi, md, gi>>

(* The run is over: it failed, or everything has been written.               *)
End == /\ pc \in {"failed", "written"}
       /\ pc' = "idle" /\ cfg' = NoCfg /\ UNCHANGED <<cur, mi, md, gi, err, files>>

(* ---- the environment of the design model -------------------------------- *)
(* The fail point of the configuration, or of the file system, decides.      *)
Res(name) == IF cfg.fail = name THEN "err" ELSE "ok"
WRes == IF cfg.fail = "write" \/ cfg.target \in BadTargets THEN "err" ELSE "ok"

Next ==
    \/ pc = "idle" /\ err = "none" /\ files = {} /\ \E c \in Cfgs : Begin(c)
    \/ Read(Input, Res("read"))
    \/ Refuse
    \/ pc # "idle" /\ Optimize(cur, Res("optimize"))
    \/ Slice(cur, Res("slice"))
    \/ \E i \in 1..MaxMods : MInit(i, "O") \/ Modify(i, cur, Res("modify" \o ToString(i)))
    \/ GInit("O")
    \/ Generate(cur, Res("generate"))
    \/ pc = "generated" /\ Write(cur, Dest(cfg), WRes)
    \/ End

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the property --------------------------------------------------------*)
NothingWrittenUnlessDone == (pc # "idle" /\ pc # "written") => files = Files0(cfg)
WrittenIsTheResult ==
    pc = "written" => /\ err = "none" /\ md = cfg.mods /\ mi = 1..cfg.mods /\ gi
                      /\ files = {f \in Files0(cfg) : f.name # Dest(cfg)} \cup {[name |-> Dest(cfg), tok |-> "G"]}
FailureIsReported ==
    pc = "failed" => /\ err # "none"
                     /\ (cfg.fail # "none" /\ cfg.faces > 0 => err = cfg.fail \/ cfg.target \in BadTargets)
                     /\ (err = "other" <=> (cfg.faces = 0 /\ cfg.fail # "read"))
SuccessIffNothingFails ==
    pc = "written" => cfg.fail = "none" /\ cfg.faces > 0 /\ cfg.target \notin BadTargets
NoStepAfterFailure == [][pc = "failed" => pc' = "idle"]_vars
AppliedInOrder == [][md' # md => pc' = "begun" \/ md' = md + 1]_vars
RunEnds == (pc = "begun") ~> (pc = "idle")
=============================================================================
