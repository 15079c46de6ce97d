SPECIFICATION Spec
CONSTANTS
  MaxStored = 2
  MaxDecs = 1
INVARIANTS ListedIsAnswered ComponentsExist SuffixesDiffer OrderIsTotal
CHECK_DEADLOCK FALSE
