SPECIFICATION Spec
CONSTANTS Ty = 8 NDir = 12 Fineness = 2
CHECK_DEADLOCK FALSE
INVARIANTS TileOK Pairing Parity Sums Emit
