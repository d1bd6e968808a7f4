CONSTANT BlocksOf <- TrBlocks
SPECIFICATION TraceSpec
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
