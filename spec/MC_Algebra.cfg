SPECIFICATION Spec
CONSTANT Full3 = FALSE
INVARIANTS DetKept Laws Adj Only Products
CHECK_DEADLOCK FALSE
