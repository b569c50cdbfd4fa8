SPECIFICATION GSpec
CONSTANTS
  Rate = 9
  Rates = {1, 2, 3, 7, 8, 11, 16, 23}
  MaxLen = 60
  FrameSize = 4
  MaxBlock = 41
CHECK_DEADLOCK FALSE
