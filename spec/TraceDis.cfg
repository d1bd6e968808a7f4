SPECIFICATION TraceSpec
INVARIANT TraceInv
CONSTANTS
  ModuleHeader <- TrHeader
  ModuleInsts <- TrInsts
CHECK_DEADLOCK FALSE
