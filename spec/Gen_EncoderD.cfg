SPECIFICATION GenSpec
CONSTANTS
  MaxOps = 24
  Lingers = {}
  Dual = TRUE
CHECK_DEADLOCK FALSE
