SPECIFICATION Spec
INVARIANT Ring
INVARIANT Calculus
INVARIANT Emit
CHECK_DEADLOCK FALSE
