SPECIFICATION Spec
CONSTANTS
  Values = 5
  Horizons = {1, 3}
INVARIANTS Admits Moves Inside
CHECK_DEADLOCK FALSE
