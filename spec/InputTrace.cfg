SPECIFICATION TSpec
CONSTANT MaxTris = 0
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
