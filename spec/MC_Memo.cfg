SPECIFICATION Spec
CONSTANT MaxEvals = 5
INVARIANTS Once Transparent
CHECK_DEADLOCK FALSE
