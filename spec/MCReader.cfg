CONSTANTS
  OperandWords = 2
  Body = 3
  Uses = 2
SPECIFICATION Spec
INVARIANT Inv
