SPECIFICATION Spec
CONSTANTS NPoints = 4 MaxLen = 3
INVARIANTS EndPointsOnly Returns Emit
CHECK_DEADLOCK FALSE
