CONSTANTS
  Depth = 2
  Which = "circle"
INIT Init
NEXT Next
INVARIANTS Accepts InForce ReqConstant ReqIs NotStale NeverComputed
CHECK_DEADLOCK FALSE
