SPECIFICATION Spec
CONSTANTS Ty = 6 NDir = 12 Fineness = 2
CHECK_DEADLOCK FALSE
INVARIANTS TileOK Pairing Parity Sums Emit
