SPECIFICATION TraceSpec
CONSTANT InstsOf <- TrInsts
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
