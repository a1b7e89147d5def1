CONSTANTS
  MainCells <- MainT
  BCells <- BT
  CCells <- CT
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
