CONSTANTS
  Depth = 4
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
