SPECIFICATION Spec
CONSTANT MaxPot = 3
INVARIANT Balanced
INVARIANT Whole
INVARIANT NeverImpossible
INVARIANT AlphaIsProbability
INVARIANT NotStuck
INVARIANT Emit
CHECK_DEADLOCK FALSE
