CONSTANTS
  Names2 = {"x", "y", "z"}
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
