SPECIFICATION Spec
CONSTANTS
  G = 2
  GQ = 2
  Bulge = 1
  BoxSteps = 2
CHECK_DEADLOCK FALSE
INVARIANTS PolyLaws BoxLaws Emit
