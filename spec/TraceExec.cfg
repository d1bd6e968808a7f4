SPECIFICATION XSpec
CHECK_DEADLOCK FALSE
