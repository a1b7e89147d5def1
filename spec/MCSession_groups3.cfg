CONSTANTS
  Depth = 3
  Which = "groups"
SPECIFICATION Spec
INVARIANTS Accepts
CHECK_DEADLOCK FALSE
