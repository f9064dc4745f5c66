SPECIFICATION Spec
CONSTANTS
  Demands = {0, 2, 5}
  Suns = {0, 3}
  Eff = 500
  Up = 1
  RMin = 1000
INVARIANTS Served Enumeration
CHECK_DEADLOCK FALSE
