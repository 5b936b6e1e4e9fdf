SPECIFICATION Spec
CONSTANTS
  G = 3
  GQ = 2
  Bulge = 2
  BoxSteps = 3
CHECK_DEADLOCK FALSE
INVARIANTS PolyLaws BoxLaws Emit
