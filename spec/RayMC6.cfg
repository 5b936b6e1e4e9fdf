SPECIFICATION Spec
CONSTANTS Ty = 6 NDir = 4 Fineness = 1
CHECK_DEADLOCK FALSE
INVARIANTS TileOK Pairing Parity Sums Emit
