SPECIFICATION Spec
CONSTANTS
  MaxHist = 9
  MaxV = 4
  MaxE = 4
CHECK_DEADLOCK FALSE
VIEW View
INVARIANT Inv
