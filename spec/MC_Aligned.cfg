SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Vals = {1, 2}
INVARIANT Aligned
CHECK_DEADLOCK FALSE
