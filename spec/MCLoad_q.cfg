CONSTANTS
  Entries = 2
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
