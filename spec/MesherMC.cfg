SPECIFICATION Spec
CONSTANTS
  Depth = 6
CHECK_DEADLOCK FALSE
INVARIANTS Reach Emit
