CONSTANTS
  Depth = 2
  Which = "groups"
SPECIFICATION Spec
INVARIANTS Accepts
CHECK_DEADLOCK FALSE
