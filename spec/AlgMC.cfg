SPECIFICATION Spec
CONSTANTS
  E = 1
  Q = 7
  S = 4
CHECK_DEADLOCK FALSE
INVARIANTS Laws
