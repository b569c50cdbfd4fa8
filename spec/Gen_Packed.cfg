SPECIFICATION GenSpec
CONSTANTS
  Dual = FALSE
  N = 128
  Values = {0}
  MaxOps = 40
INVARIANT Mirror
CHECK_DEADLOCK FALSE
