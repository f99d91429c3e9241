SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANT DerivedFollows
INVARIANT Emit
CHECK_DEADLOCK FALSE
