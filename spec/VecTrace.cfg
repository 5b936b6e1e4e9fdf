SPECIFICATION TSpec
CONSTANTS
  NV = 3
  Vals = {0, 1, 2}
  MaxLen = 1000
  Depth = 0
CHECK_DEADLOCK FALSE
POSTCONDITION Done
