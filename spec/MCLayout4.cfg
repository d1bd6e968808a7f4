SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  InstsOf <- MCInsts
INVARIANTS LayoutTypeOK Lossless Complete Deterministic ExactlyLegal Viable Hopeless
CHECK_DEADLOCK FALSE
PROPERTY Follows
