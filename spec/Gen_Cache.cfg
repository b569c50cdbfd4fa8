SPECIFICATION GSpec
CONSTANTS
  Videos = {0, 1, 2}
  Modes = {"HGR", "DHGR"}
  Palettes = {"IIGS", "NTSC"}
  N = 3
  MaxOps = 14
CHECK_DEADLOCK FALSE
