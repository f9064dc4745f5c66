SPECIFICATION Spec
CONSTANTS
  MaxT = 4
  Casters = {"none", "o2", "g3"}
  Hows = {"yaml", "file", "pickle", "deepcopy"}
INVARIANT Rows
PROPERTY Isolated
CHECK_DEADLOCK FALSE
