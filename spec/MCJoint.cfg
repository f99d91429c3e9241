SPECIFICATION Spec
CONSTANT TMax = 2
CONSTANT Depth = 2
INVARIANTS PotentialIsProbability TotalOne Emit
CHECK_DEADLOCK FALSE
