SPECIFICATION TraceSpec
CONSTANTS
  InputOf <- TrInput
  SetsOf <- TrSets
  InstsOf <- TrInsts
  ProgramsOf <- TrPrograms
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
