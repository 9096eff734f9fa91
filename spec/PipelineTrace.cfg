SPECIFICATION TSpec
CONSTANT MaxMods = 9
POSTCONDITION AllConsumed
CHECK_DEADLOCK FALSE
