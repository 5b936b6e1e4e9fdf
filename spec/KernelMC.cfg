SPECIFICATION Spec
CONSTANTS
  MaxR = 3
CHECK_DEADLOCK FALSE
INVARIANTS KeepsGround OneMaterial Priority Whole NoEmptyGroups Emit
