SPECIFICATION Spec
CONSTANTS
  NV = 2
  Vals = {1, 2}
  MaxLen = 8
  Depth = 3
CHECK_DEADLOCK FALSE
INVARIANTS Emit TypeOK OrderOK
