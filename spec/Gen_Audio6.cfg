SPECIFICATION GSpec
CONSTANTS
  Rate = 11
  Rates = {1, 2, 3, 7, 8, 11, 16, 23}
  MaxLen = 60
  FrameSize = 6
  MaxBlock = 41
CHECK_DEADLOCK FALSE
