CONSTANTS
  Nodes = 3
  SelfRefs = TRUE
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
