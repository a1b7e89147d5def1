CONSTANTS
  MainCells <- MainQ
  BCells <- BQ
  CCells <- CQ
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
