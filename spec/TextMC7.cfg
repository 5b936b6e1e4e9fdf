SPECIFICATION Spec
CONSTANTS
  L = 7
  N = 6
  W = 4
CHECK_DEADLOCK FALSE
INVARIANTS Layouts Nums Labels Emit
