CONSTANTS
  Args <- ArgsQ
  Opts <- OptsT
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
