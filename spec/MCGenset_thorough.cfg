SPECIFICATION Spec
CONSTANT MaxT = 5
INVARIANTS Domain ExactTime Eventually Bounded
PROPERTIES Completed NotTooEarly
CHECK_DEADLOCK FALSE
