SPECIFICATION Spec
CONSTANT N = 4
CONSTANT Bins = 3
INVARIANTS Shown Histogram Emit
CHECK_DEADLOCK FALSE
