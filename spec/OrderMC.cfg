SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  MaxVal = 3
  W = 3
CHECK_DEADLOCK FALSE
INVARIANTS SortLaws PermLaws MortonLaws Emit
