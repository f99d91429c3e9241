SPECIFICATION Spec
CONSTANTS
 MaxSites = 4
 Rate = 4
INVARIANT TargetKept
CHECK_DEADLOCK FALSE
