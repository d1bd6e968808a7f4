SPECIFICATION MCSpec
CONSTANTS
  PlanOf <- MCPlan
  ThreadsOf <- MCThreads
  Says <- MCSays
INVARIANTS SameAnswers NeverStuck
PROPERTIES Stable AllEnd
CHECK_DEADLOCK FALSE
