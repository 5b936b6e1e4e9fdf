SPECIFICATION Spec
CONSTANTS
  RtmShapes <- MCRtm
  LatShapes <- MCLat
  AsyLens = {1, 2}
  CoreShapes <- MCCore
CHECK_DEADLOCK FALSE
INVARIANTS Inv
