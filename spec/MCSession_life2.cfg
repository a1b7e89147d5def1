CONSTANTS
  Depth = 2
  Which = "life"
INIT Init
NEXT Next
INVARIANTS Accepts InForce ReqConstant ReqIs NotStale NeverComputed
CHECK_DEADLOCK FALSE
