SPECIFICATION Spec
CONSTANTS
  Demands = {0, 1, 2, 3, 5, 8}
  Suns = {0, 1, 3, 6}
  Eff = 500
  Up = 1
  RMin = 0
INVARIANTS Served Enumeration
CHECK_DEADLOCK FALSE
