SPECIFICATION Spec
CONSTANTS
  L = 6
  N = 5
  W = 3
CHECK_DEADLOCK FALSE
INVARIANTS Layouts Nums Labels Emit
