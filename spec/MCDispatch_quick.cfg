SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Demands = {0, 1, 3, 5}
  Imports = {0, 4}
INVARIANT Check
CHECK_DEADLOCK FALSE
