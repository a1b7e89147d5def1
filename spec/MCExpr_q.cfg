CONSTANTS
  MaxOps = 3
  Signs = TRUE
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
