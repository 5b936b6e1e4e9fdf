SPECIFICATION Spec
CONSTANTS Radii <- R1 RingCounts <- N1 Azi <- A1
CHECK_DEADLOCK FALSE
INVARIANTS Partition Accepted Rejected Emit
