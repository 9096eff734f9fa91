SPECIFICATION Spec
CONSTANTS
 Guarded = TRUE
 MaxH = 3
INVARIANTS Complete NoExcuse
PROPERTY Ends
CHECK_DEADLOCK FALSE
