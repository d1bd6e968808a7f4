CONSTANTS
  BlocksOf <- MkBlocks
  Count = 2
  Absent = 1
SPECIFICATION Spec
INVARIANT Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
