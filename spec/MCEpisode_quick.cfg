SPECIFICATION Spec
CONSTANTS
  N = 4
  MaxLog = 4
INVARIANTS Bounds Rows Length
PROPERTIES Begins
CHECK_DEADLOCK FALSE
