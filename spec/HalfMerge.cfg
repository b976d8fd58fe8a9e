SPECIFICATION Spec
CONSTANTS W = 8
INVARIANTS Ordered Request Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
