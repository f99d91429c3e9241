SPECIFICATION Spec
CONSTANT N = 3
CONSTANT Factors = {0, 1, 3}
CONSTANT Steps = 3
CONSTANT ThrNum = 1
CONSTANT ThrDen = 2
INVARIANT Telescopes
INVARIANT Survivors
INVARIANT EssBounds
INVARIANT Positive
INVARIANT ResetAfterResampling
INVARIANT UntouchedOtherwise
CHECK_DEADLOCK FALSE
