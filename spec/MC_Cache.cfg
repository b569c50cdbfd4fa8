SPECIFICATION Spec
CONSTANTS
  Videos = {a, b}
  Modes = {"HGR", "DHGR"}
  Palettes = {IIGS}
  N = 2
INVARIANTS Complete Again
PROPERTIES Kept Apart
CHECK_DEADLOCK FALSE
