SPECIFICATION Spec
CONSTANT Length = 4
CONSTANT Replayed = 4
INVARIANT Discipline
INVARIANT Broken
INVARIANT Emit
POSTCONDITION Shown
CHECK_DEADLOCK FALSE
