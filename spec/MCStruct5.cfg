CONSTANTS
  BlocksOf <- MCBlocksOf
  Size = 5
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
