SPECIFICATION Spec
CONSTANTS
  Ns = {"", "a", "aa"}
  MaxC = 2
  MaxLen = 4
CONSTRAINT Bound
INVARIANTS ReadsBack Shaped
PROPERTY CountOnlyBySetCountOnceKnown
CHECK_DEADLOCK FALSE
