SPECIFICATION Spec
CONSTANTS
  Depth = 4
CHECK_DEADLOCK FALSE
INVARIANTS LawsOnce Distinct MixOk Emit
