CONSTANTS
  Depth = 2
  Which = "share"
SPECIFICATION Spec
INVARIANTS Accepts
PROPERTY Frame
CHECK_DEADLOCK FALSE
