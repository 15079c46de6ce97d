SPECIFICATION Spec
CONSTANTS
  N = 4
  Mode = "sound"
INVARIANTS StopsThere Reported OnTheWay
CHECK_DEADLOCK FALSE
