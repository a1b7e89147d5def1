CONSTANTS
  MaxOps = 4
  Signs = FALSE
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
