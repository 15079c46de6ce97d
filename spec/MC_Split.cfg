SPECIFICATION Spec
CONSTANTS
  MaxN = 4
  MaxParts = 6
INVARIANTS CutsAreTheParts Lossless Weaves Bijective ConcatAssoc
PROPERTY Ends
CHECK_DEADLOCK FALSE
