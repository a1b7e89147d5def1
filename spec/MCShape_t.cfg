CONSTANTS
  MaxLen = 5
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
