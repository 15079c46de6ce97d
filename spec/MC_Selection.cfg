SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxIs = 2
  Vals = {1, 2}
INVARIANTS Computes Complementary FirstIsFirst Idempotent
PROPERTY Terminates
CHECK_DEADLOCK FALSE
