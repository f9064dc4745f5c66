SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Names = {"a", "b"}
INVARIANTS Check Emitted
CHECK_DEADLOCK FALSE
