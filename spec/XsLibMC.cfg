SPECIFICATION Spec
CONSTANTS
  MaxG = 2
  MaxN = 2
  MaxT = 2
CHECK_DEADLOCK FALSE
INVARIANTS Complete Emit
PROPERTIES RowLocal
