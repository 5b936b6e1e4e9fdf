SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
CHECK_DEADLOCK FALSE
INVARIANTS Apart Sane Emit
