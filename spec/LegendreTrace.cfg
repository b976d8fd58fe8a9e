SPECIFICATION TSpec
CONSTANT NMax = 18
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
