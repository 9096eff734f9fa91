SPECIFICATION Spec
CONSTANTS W = 5 H = 3 Dist = 2 Limit = 2
INVARIANTS ExactlyOnce Connected Alternating
PROPERTY Ends
CHECK_DEADLOCK FALSE
