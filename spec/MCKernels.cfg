SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Formulas PositiveDefinite SteinIdentity Emit
PROPERTY CallsLeaveNoTrace
CHECK_DEADLOCK FALSE
