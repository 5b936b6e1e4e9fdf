SPECIFICATION Spec
CONSTANTS
  NS = 2
  Depth = 3
  Texts <- MCTexts
CHECK_DEADLOCK FALSE
INVARIANTS Emit
