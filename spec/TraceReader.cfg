SPECIFICATION TraceSpec
CONSTANTS
  InputOf <- TrInput
  SetsOf <- TrSets
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
