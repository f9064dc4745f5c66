SPECIFICATION Spec
CONSTANTS
  Demands = {0, 3}
  Suns = {0, 2}
  Eff = 500
  Flows = {0, 1}
  GenReqs = {0, 2, 4}
  MaxSteps = 3
CHECK_DEADLOCK FALSE
