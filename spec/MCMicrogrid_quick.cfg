SPECIFICATION Spec
CONSTANTS
  Demands = {0, 3}
  Suns = {0, 2}
  Eff = 500
  Charges = {1, 3}
  Discharges = {0, 1}
  Exports = {2}
  Imports = {0, 1}
  GenReqs = {0, 2}
  Up = 1
  Down = 0
CHECK_DEADLOCK FALSE
