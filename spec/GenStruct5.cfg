CONSTANTS
  BlocksOf <- MCBlocksOf
  Size = 5
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
