SPECIFICATION Spec
CONSTANTS
  NX = 3
  NY = 3
CHECK_DEADLOCK FALSE
INVARIANTS Partition Apart Joined OrderFree Conserved Emit
