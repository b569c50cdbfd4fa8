SPECIFICATION GenSpec
CONSTANTS
  MaxOps = 24
  Lingers = {}
  Dual = FALSE
CHECK_DEADLOCK FALSE
