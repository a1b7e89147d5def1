CONSTANTS
  MaxLen = 3
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
