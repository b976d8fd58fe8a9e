SPECIFICATION Spec
INVARIANT Tiling
INVARIANT Positive
INVARIANT NotCrossed
INVARIANT Complete
INVARIANT Emit
PROPERTY Terminates
PROPERTY Progress
CONSTANT N = 5
CONSTANT MaxJumps = 3
CHECK_DEADLOCK FALSE
