SPECIFICATION Spec
CONSTANT Steps = 4
INVARIANT Permuted
INVARIANT Alone
INVARIANT Balanced
INVARIANT Repels
INVARIANT Emit
CHECK_DEADLOCK FALSE
