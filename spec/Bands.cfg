SPECIFICATION Spec
CONSTANTS W = 6
INVARIANTS Ordered Touching Complete Contiguous Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
