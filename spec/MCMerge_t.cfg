CONSTANTS
  Vals = {"none", "eq", "grp", "num"}
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
