SPECIFICATION TSpec
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
