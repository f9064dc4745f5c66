SPECIFICATION Spec
CONSTANT MaxT = 3
INVARIANTS Domain ExactTime Eventually Bounded
PROPERTIES Completed NotTooEarly
CHECK_DEADLOCK FALSE
