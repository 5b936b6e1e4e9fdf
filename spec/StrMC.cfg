SPECIFICATION Spec
CONSTANTS
  NS = 2
  Depth = 4
  Texts <- MCTexts
CHECK_DEADLOCK FALSE
INVARIANTS OrderOK TokenOK
VIEW View
