SPECIFICATION Spec
CONSTANTS
  MaxN = 1
  Vals = {0, 1}
  MaxLen = 4
CONSTRAINT Bound
INVARIANTS Shaped Agree
PROPERTIES OneAtATime CopiesAreEqual
CHECK_DEADLOCK FALSE
