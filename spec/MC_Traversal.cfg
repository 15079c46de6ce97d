SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  Vals = {1, 2}
INVARIANTS Ordered Chosen Chain Maps FailsOnlyWhenItMust
PROPERTY Ends
CHECK_DEADLOCK FALSE
