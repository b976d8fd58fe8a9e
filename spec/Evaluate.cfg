SPECIFICATION Spec
CONSTANTS S = 3 MaxLen = 4
INVARIANTS Sound NeverStuck Emit
CHECK_DEADLOCK FALSE
