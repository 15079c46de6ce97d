SPECIFICATION Spec
INVARIANTS Laid Corners
CHECK_DEADLOCK FALSE
