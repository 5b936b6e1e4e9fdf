SPECIFICATION Spec
CONSTANTS
  MaxHist = 7
  MaxV = 2
  MaxE = 2
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitT
