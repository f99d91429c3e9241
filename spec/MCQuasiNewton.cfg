SPECIFICATION Spec
CONSTANT Length = 4
INVARIANT Sound
INVARIANT Standard
INVARIANT Reversible
INVARIANT Emit
CHECK_DEADLOCK FALSE
