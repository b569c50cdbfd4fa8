SPECIFICATION GSpec
CONSTANTS
  MaxLen = 40
  Cap = 10
INVARIANT Show
CHECK_DEADLOCK FALSE
