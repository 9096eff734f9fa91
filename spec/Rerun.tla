-------------------------------- MODULE Rerun --------------------------------
(* Slicing runs in one process: instances with options of their own are given   *)
(* models, one after the other or while others are running.  Everything a run   *)
(* writes down on its way belongs to its instance and is made new by the run    *)
(* itself, therefore the result depends on nothing but model and options.       *)
(* (Reset = FALSE, or Shared = TRUE: the mistakes this rules out.)              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Instances, Models, MaxRuns, Reset, Shared
VARIABLES state,   \* of the instance: what its builder and its patterns know
          run,     \* what the instance is doing: [m, at]
          results  \* of all runs: <<instance, model, result>>
vars == <<state, run, results>>
Steps == <<"read", "optimize", "slice", "modify", "pattern", "reset", "layer", "layer", "write">>
None == [m |-> 0, at |-> 0]
Empty == [box |-> 0, out |-> <<>>, work |-> <<>>]
Place(i) == IF Shared THEN 0 ELSE i
Init == /\ state = [i \in Instances \cup {0} |-> Empty] /\ run = [i \in Instances |-> None] /\ results = <<>>
Started == Len(results) + Cardinality({i \in Instances : run[i] # None})
Start(i) == /\ run[i] = None /\ Started < MaxRuns
            /\ \E m \in Models : run' = [run EXCEPT ![i] = [m |-> m, at |-> 1]]
            /\ UNCHANGED <<state, results>>
Step(i) ==
    /\ run[i] # None
    /\ LET s == Steps[run[i].at] p == Place(i) m == run[i].m q == state[p] IN
       /\ state' = [state EXCEPT ![p] =
            CASE s = "read" -> [q EXCEPT !.work = <<"faces", m>>]
              [] s = "optimize" -> [q EXCEPT !.work = <<"mesh", m>>]
              [] s = "slice" -> [q EXCEPT !.work = <<"layers", q.work[2]>>]
              [] s = "pattern" -> [q EXCEPT !.box = m]
              [] s = "reset" -> IF Reset THEN [q EXCEPT !.out = <<>>] ELSE q
              [] s = "layer" -> [q EXCEPT !.out = Append(@, <<i, q.work[2], q.box>>)]
              [] OTHER -> q]
       /\ IF run[i].at = Len(Steps)
          THEN run' = [run EXCEPT ![i] = None] /\ results' = Append(results, <<i, m, q.out>>)
          ELSE run' = [run EXCEPT ![i].at = @ + 1] /\ UNCHANGED results
Next == \E i \in Instances : Start(i) \/ Step(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Instances : WF_vars(Step(i))
\* the result of a run is a function of model and options (of the instance)
Reproducible == \A k \in 1..Len(results) : LET r == results[k] IN r[3] = <<<<r[1], r[2], r[2]>>, <<r[1], r[2], r[2]>>>>
AllEnd == \A i \in Instances : run[i] # None ~> run[i] = None
=============================================================================
