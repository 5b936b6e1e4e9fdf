SPECIFICATION Spec
CONSTANTS
  RtmShapes <- MCRtm2
  LatShapes <- MCLat2
  AsyLens = {1, 2}
  CoreShapes <- MCCore2
CHECK_DEADLOCK FALSE
INVARIANTS Inv
