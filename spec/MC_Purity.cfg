SPECIFICATION Spec
CONSTANTS
  H = 5
  Mode = "sound"
INVARIANTS Refines SameAnswer NotShared
CHECK_DEADLOCK FALSE
