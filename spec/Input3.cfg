SPECIFICATION Spec
CONSTANT MaxTris = 3
INVARIANTS GoodAccepted PrefixRejected DefectRejected Complete
PROPERTY Monotone
CHECK_DEADLOCK FALSE
