CONSTANTS
  Sizes = {2, 5, 6, 10, 15}
  Years = {2000, 2010, 2030}
  AskS = {1, 2, 3, 4, 7, 8, 9, 12, 14, 21}
  AskY = {1995, 2000, 2004, 2015, 2020, 2040}
INIT Init
NEXT Next
INVARIANTS Checked
CHECK_DEADLOCK FALSE
