SPECIFICATION Spec
CONSTANTS
  Threads = 2
  Mode = "sound"
INVARIANTS AsAlone Untouched
CHECK_DEADLOCK FALSE
