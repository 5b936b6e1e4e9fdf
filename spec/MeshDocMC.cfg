SPECIFICATION Spec
CONSTANTS
  MaxElem = 3
  MaxSet = 2
CHECK_DEADLOCK FALSE
INVARIANT Inv Emit
