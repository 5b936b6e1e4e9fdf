SPECIFICATION Spec
CONSTANTS
  MaxPart = 1
  MaxHist = 9
CHECK_DEADLOCK FALSE
VIEW View
ACTION_CONSTRAINT EmitT
