SPECIFICATION Spec
CONSTANTS
 N = 3
 Grid = 3
 MaxLen = 2
INVARIANTS LivingInside DeadOutside ThresholdsFall NeverAllDeadWhenAdaptive Emit
CHECK_DEADLOCK FALSE
