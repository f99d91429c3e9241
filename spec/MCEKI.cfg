SPECIFICATION Spec
CONSTANT Grid = 4
CONSTANT Top = 6
INVARIANT OnTempered
INVARIANT Capped
INVARIANT Climbing
INVARIANT Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
