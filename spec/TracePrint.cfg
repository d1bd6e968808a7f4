SPECIFICATION TraceSpec
INVARIANT TraceInv
CONSTANTS
  ChainOfRun <- TrChain
  FunctionOfRun <- TrBlocks
CHECK_DEADLOCK FALSE
