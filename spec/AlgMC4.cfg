SPECIFICATION Spec
CONSTANTS
  E = 1
  Q = 12
  S = 6
CHECK_DEADLOCK FALSE
INVARIANTS Laws
