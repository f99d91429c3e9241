SPECIFICATION Spec
CONSTANT Grid = 4
CONSTANT Budget = 3
INVARIANT Climbing
INVARIANT Capped
INVARIANT FollowsSchedule
INVARIANT CompleteAtEnd
INVARIANT Emit
PROPERTY Finishes
CHECK_DEADLOCK FALSE
