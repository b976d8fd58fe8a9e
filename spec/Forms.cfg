SPECIFICATION Spec
CONSTANTS N = 3 MaxLen = 3
INVARIANT SameIndex
INVARIANT Emit
CHECK_DEADLOCK FALSE
