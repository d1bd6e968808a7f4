CONSTANTS
  BlocksOf <- MCBlocksOf
  Size = 4
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
