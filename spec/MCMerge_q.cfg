CONSTANTS
  Vals = {"none", "eq", "grp"}
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
