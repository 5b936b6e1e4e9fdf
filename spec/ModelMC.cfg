SPECIFICATION Spec
CONSTANTS
  MaxPart = 2
  MaxHist = 12
CHECK_DEADLOCK FALSE
INVARIANTS Inv
VIEW View
