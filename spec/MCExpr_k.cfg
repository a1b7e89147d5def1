CONSTANTS
  MaxOps = 3
  Signs = FALSE
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
