SPECIFICATION Spec
CONSTANTS G = 5 N = 4 W = 4
INVARIANTS NoDuplicates OnlyRequested Complete Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
