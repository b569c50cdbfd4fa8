SPECIFICATION GSpec
CONSTANTS
  Rate = 17
  Rates = {1, 2, 3, 7, 8, 11, 16, 23}
  MaxLen = 60
  FrameSize = 12
  MaxBlock = 41
CHECK_DEADLOCK FALSE
