SPECIFICATION Spec
CONSTANTS
  MaxElem = 4
  MaxSet = 2
CHECK_DEADLOCK FALSE
INVARIANT Inv Emit
