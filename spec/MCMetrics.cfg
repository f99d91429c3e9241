SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Chains Weights Emit
CHECK_DEADLOCK FALSE
