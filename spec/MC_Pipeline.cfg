SPECIFICATION Spec
CONSTANT MaxArity = 3
INVARIANTS Planned Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
