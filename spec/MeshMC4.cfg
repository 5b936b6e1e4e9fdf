SPECIFICATION Spec
CONSTANTS Ty = 4 MaxF = 3
CHECK_DEADLOCK FALSE
INVARIANTS FlipTwice Repaired Disc Encloses Emit
