SPECIFICATION Spec
CONSTANTS
  MaxX = 3
  MaxD = 2
  MaxDivs = 4
  Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS GridOk Emit
