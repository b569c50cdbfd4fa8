SPECIFICATION GenSpec
CONSTANTS
  MaxOps = 9
  Lingers = {40, 60, 80}
  Dual = FALSE
CHECK_DEADLOCK FALSE
