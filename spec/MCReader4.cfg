CONSTANTS
  OperandWords = 4
  Body = 5
  Uses = 3
SPECIFICATION Spec
INVARIANT Inv
