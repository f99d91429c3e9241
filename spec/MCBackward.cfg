SPECIFICATION Spec
CONSTANT T = 3
CONSTANT Limits = {0, 1, 2, 5}
CONSTANT Models = {1, 2}
INVARIANTS ExactPosterior SameLaw Emit
CHECK_DEADLOCK FALSE
