SPECIFICATION TraceSpec
CONSTANTS
  PlanOf <- TrPlan
  ThreadsOf <- TrThreads
  Says <- TrSays
PROPERTY Stable
CHECK_DEADLOCK FALSE
