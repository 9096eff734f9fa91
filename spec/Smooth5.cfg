SPECIFICATION Spec
CONSTANTS N = 5 Eps = 2
CONSTANT Grid <- SmallGrid
INVARIANTS KeepsEnds WithinTolerance Proper
PROPERTIES Progress Terminates
CHECK_DEADLOCK FALSE
