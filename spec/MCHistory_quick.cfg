SPECIFICATION Spec
CONSTANTS
  MaxT = 2
  Casters = {"none", "o2"}
  Hows = {"yaml", "file", "pickle", "deepcopy"}
INVARIANT Rows
PROPERTY Isolated
CHECK_DEADLOCK FALSE
