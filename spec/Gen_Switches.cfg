SPECIFICATION SwitchSpec
CONSTANTS
  Switches = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  MaxOps = 70
INVARIANT Remembers
CHECK_DEADLOCK FALSE
