SPECIFICATION Spec
CONSTANTS
  Demands = {0, 1, 3, 6}
  Suns = {0, 2, 5}
  Eff = 500
  Charges = {1, 3, 5}
  Discharges = {0, 1, 2}
  Exports = {1, 2}
  Imports = {0, 1, 3}
  GenReqs = {0, 1, 3}
  Up = 1
  Down = 1
CHECK_DEADLOCK FALSE
