CONSTANTS
  MaxOps = 2
  Signs = TRUE
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
