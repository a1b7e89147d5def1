CONSTANTS
  Sizes = {2, 5, 10}
  Years = {2000, 2010}
  AskS = {1, 2, 3, 4, 7, 9, 14}
  AskY = {1995, 2000, 2004, 2015}
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
