SPECIFICATION Spec
CONSTANTS
 Guarded = TRUE
 MaxH = 7
INVARIANTS Complete NoExcuse
PROPERTY Ends
CHECK_DEADLOCK FALSE
