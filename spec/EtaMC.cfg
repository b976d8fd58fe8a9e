SPECIFICATION Spec
CONSTANTS
  N = 15
  Args <- MCArgs
INVARIANT Identity
INVARIANT Recurrence
INVARIANT Agree
PROPERTY Derivative
CHECK_DEADLOCK FALSE
