SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  Vals = {1, 2, 3}
INVARIANTS Sorts Unique NeverLost Witness NoWitness
PROPERTY Ends
CHECK_DEADLOCK FALSE
