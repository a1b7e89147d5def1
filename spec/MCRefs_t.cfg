CONSTANTS
  Nodes = 4
  SelfRefs = FALSE
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
