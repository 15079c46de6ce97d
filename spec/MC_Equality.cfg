SPECIFICATION Spec
INVARIANTS Decided Laws
CHECK_DEADLOCK FALSE
