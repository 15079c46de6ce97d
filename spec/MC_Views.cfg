SPECIFICATION Spec
CONSTANT Refers = FALSE
INVARIANTS Own Product Laws
CHECK_DEADLOCK FALSE
