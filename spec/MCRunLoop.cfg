SPECIFICATION Spec
CONSTANT MaxIter = 4
INVARIANT Safety
INVARIANT Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
