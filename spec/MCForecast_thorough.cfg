SPECIFICATION Spec
CONSTANTS
  Values = 6
  Horizons = {1, 2, 3, 5, 8}
INVARIANTS Admits Moves Inside
CHECK_DEADLOCK FALSE
