SPECIFICATION Spec
CONSTANT Len_ = 4
CONSTANT Cuts = {0, 1, 3, 1000000}
INVARIANT Direction
INVARIANT FreezesForever
INVARIANT Bounded
INVARIANT Emit
CHECK_DEADLOCK FALSE
