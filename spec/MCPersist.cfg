INIT Init
NEXT Next
CONSTANTS
  None = "none"
  Depth = 3
  Paths = {"a", "b"}
INVARIANTS NeverTorn Refines Emit
CHECK_DEADLOCK FALSE
