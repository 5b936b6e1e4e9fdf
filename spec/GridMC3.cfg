SPECIFICATION Spec
CONSTANTS
  MaxX = 2
  MaxD = 3
  MaxDivs = 3
  Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS GridOk Emit
