CONSTANTS
  Depth = 1
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
