SPECIFICATION Spec
INVARIANTS Accepts Rejects Lengths Positive
CHECK_DEADLOCK FALSE
