SPECIFICATION Spec
CONSTANTS
  NV = 2
  Vals = {1, 2}
  MaxLen = 4
  Depth = 40
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK OrderOK
PROPERTY FrameOK
VIEW View
