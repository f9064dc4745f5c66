SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Demands = {0, 1, 2, 3, 4, 5, 7}
  Imports = {0, 2, 7}
INVARIANT Check
CHECK_DEADLOCK FALSE
