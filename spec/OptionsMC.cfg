CONSTANTS MaxArgs = 2 Numbers = 300
SPECIFICATION Spec
INVARIANTS Own Agrees
PROPERTY Rejects
CHECK_DEADLOCK FALSE
