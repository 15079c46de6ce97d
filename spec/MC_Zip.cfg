SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxIs = 3
  MaxSeries = 3
INVARIANTS Zips RoundTrip Back
PROPERTY Ends
CHECK_DEADLOCK FALSE
