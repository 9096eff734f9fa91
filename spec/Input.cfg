SPECIFICATION Spec
CONSTANT MaxTris = 1
INVARIANTS GoodAccepted PrefixRejected DefectRejected Complete
PROPERTY Monotone
CHECK_DEADLOCK FALSE
