SPECIFICATION ISpec
CONSTANTS Reach = 1  Side = 8  Target = 6  Colours <- MCColours
          Positions <- MCPositions  Values = {0, 1}
INVARIANTS Right Telling InPlace
CHECK_DEADLOCK FALSE
