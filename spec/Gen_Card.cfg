SPECIFICATION CardSpec
CONSTANTS
  Switches = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  MaxOps = 90
INVARIANT Remembers
CHECK_DEADLOCK FALSE
