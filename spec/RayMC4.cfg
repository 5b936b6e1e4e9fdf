SPECIFICATION Spec
CONSTANTS Ty = 4 NDir = 6 Fineness = 1
CHECK_DEADLOCK FALSE
INVARIANTS TileOK Pairing Parity Sums Emit
