SPECIFICATION Spec
CONSTANTS W = 4 H = 3 Dist = 1 Limit = 2
INVARIANTS ExactlyOnce Connected Alternating
PROPERTY Ends
CHECK_DEADLOCK FALSE
