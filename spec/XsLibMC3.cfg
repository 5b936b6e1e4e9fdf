SPECIFICATION Spec
CONSTANTS
  MaxG = 3
  MaxN = 1
  MaxT = 2
CHECK_DEADLOCK FALSE
INVARIANTS Complete Emit
PROPERTIES RowLocal
