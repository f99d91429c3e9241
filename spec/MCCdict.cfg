INIT Init
NEXT Next
CONSTANT Depth = 2
INVARIANT Laws
INVARIANT Emit
CHECK_DEADLOCK FALSE
