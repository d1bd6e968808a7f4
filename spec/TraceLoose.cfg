SPECIFICATION Spec
INVARIANT TraceInv
CHECK_DEADLOCK FALSE
