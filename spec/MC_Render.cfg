SPECIFICATION Spec
CONSTANT Stray = FALSE
INVARIANTS Written
CHECK_DEADLOCK FALSE
