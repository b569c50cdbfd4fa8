SPECIFICATION GenSpec
CONSTANTS
  Dual = TRUE
  N = 128
  Values = {0}
  MaxOps = 40
INVARIANT Mirror
CHECK_DEADLOCK FALSE
