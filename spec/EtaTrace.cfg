SPECIFICATION TSpec
CONSTANTS
  N = 15
  Args <- TArgs
INVARIANT TypeOk
CHECK_DEADLOCK FALSE
