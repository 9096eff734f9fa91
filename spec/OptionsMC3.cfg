CONSTANTS MaxArgs = 3 Numbers = 999
SPECIFICATION Spec
INVARIANTS Own Agrees
PROPERTY Rejects
CHECK_DEADLOCK FALSE
