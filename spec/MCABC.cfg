SPECIFICATION Spec
CONSTANT MaxPrior = 2
INVARIANTS Balanced StaysInside NeverImpossible Emit
CHECK_DEADLOCK FALSE
