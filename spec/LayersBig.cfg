SPECIFICATION Spec
CONSTANTS MaxZ = 6 Inits = {1, 2, 3} Ths = {1, 2, 3} MaxSpans = 3
INVARIANTS EveryHeight Filled NothingLost
CHECK_DEADLOCK FALSE
