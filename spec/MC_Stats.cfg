SPECIFICATION Spec
INVARIANTS Gathered CovLaws OrderLaws BinLaws
CHECK_DEADLOCK FALSE
