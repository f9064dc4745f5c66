SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  Names = {"a", "b"}
INVARIANTS Check Emitted
CHECK_DEADLOCK FALSE
