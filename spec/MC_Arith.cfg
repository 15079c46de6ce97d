SPECIFICATION Spec
CONSTANTS
  MaxN = 2
INVARIANTS Right Shape Laws
PROPERTY Ends
CHECK_DEADLOCK FALSE
