SPECIFICATION Spec
CONSTANT M = 5
CONSTANT MaxL = 3
INVARIANT Reversible
INVARIANT Bijective
INVARIANT Involution
INVARIANT NextMomentum
CHECK_DEADLOCK FALSE
