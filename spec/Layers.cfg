SPECIFICATION Spec
CONSTANTS MaxZ = 4 Inits = {1, 2} Ths = {1, 2, 3} MaxSpans = 2
INVARIANTS EveryHeight Filled NothingLost
CHECK_DEADLOCK FALSE
