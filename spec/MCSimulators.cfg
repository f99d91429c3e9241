SPECIFICATION Spec
CONSTANT Events = 7
INVARIANTS Populations Conserved NoBirths ExtinctIsFinal Recognised Laws Binomial Emit
PROPERTY OneWay
CHECK_DEADLOCK FALSE
