SPECIFICATION Spec
CONSTANTS
  N = 5
  MaxLog = 5
INVARIANTS Bounds Rows Length
PROPERTIES Begins
CHECK_DEADLOCK FALSE
