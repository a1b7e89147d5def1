CONSTANTS
  Names2 = {"x", "y"}
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
