SPECIFICATION Spec
CONSTANT N = 2
CONSTANT Steps = 2
CONSTANT Models = {1, 2}
INVARIANTS Unbiased Survivors Emit
CHECK_DEADLOCK FALSE
