SPECIFICATION Spec
INVARIANT Pure
INVARIANT SampledOnce
INVARIANT Rejected
INVARIANT Emit
CONSTANT MaxLen = 4
CONSTANT MaxLive = 2
CHECK_DEADLOCK FALSE
