SPECIFICATION TSpec
CONSTANTS
  NS = 3
  Depth = 0
  Texts = {}
CHECK_DEADLOCK FALSE
POSTCONDITION Done
