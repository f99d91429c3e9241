SPECIFICATION Spec
CONSTANTS
  TMax = 3
  Models = {1, 2, 3}
  Values <- ObsValues
  GapSets = {1, 2}
INVARIANTS FilterExact SmootherExact SmootherCertain WellFormed Emit
CHECK_DEADLOCK FALSE
