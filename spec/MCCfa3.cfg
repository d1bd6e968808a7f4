CONSTANTS
  BlocksOf <- MkBlocks
  Count = 3
  Absent = 0
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
