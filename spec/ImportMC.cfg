SPECIFICATION Spec
CONSTANTS
  Kinds = {3, 4}
INVARIANTS Laws Emit
CHECK_DEADLOCK FALSE
