SPECIFICATION Spec
CONSTANT TMax = 4
CONSTANT Lags = {1, 2, 3, 4}
CONSTANT Models = {1, 2}
INVARIANTS IsALaw ExactWithinLag FrozenPast GlueIsExact Emit
CHECK_DEADLOCK FALSE
