CONSTANTS
  BlocksOf <- MCBlocksOf
  Size = 4
SPECIFICATION GSpec
CHECK_DEADLOCK FALSE
