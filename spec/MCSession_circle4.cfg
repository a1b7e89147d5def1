CONSTANTS
  Depth = 4
  Which = "circle"
INIT Init
NEXT Next
INVARIANTS Accepts InForce ReqConstant ReqIs NotStale NeverComputed
CHECK_DEADLOCK FALSE
