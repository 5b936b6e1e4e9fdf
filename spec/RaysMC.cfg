SPECIFICATION Spec
CONSTANTS
  N = 7
  W = 6
CHECK_DEADLOCK FALSE
INVARIANTS Cyclic Laws Fine
