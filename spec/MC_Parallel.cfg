SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxCores = 4
INVARIANTS NothingLeftRunning Equal FailsWhenItMust
PROPERTIES Terminates Refines
CHECK_DEADLOCK FALSE
