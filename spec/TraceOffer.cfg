CONSTANTS
  WordsOf <- TrWords
  ScriptOf <- TrScript
SPECIFICATION TraceSpec
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
