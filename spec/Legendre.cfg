SPECIFICATION Spec
CONSTANT NMax = 10
INVARIANT Reproduces
INVARIANT Integrates
INVARIANT Orthogonal
CHECK_DEADLOCK FALSE
