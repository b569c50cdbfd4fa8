SPECIFICATION GenSpec
CONSTANTS Scrns = {1, 2}  Cells <- GenCells  Values = {0, 1, 127, 128, 255}  MaxOps = 40
CHECK_DEADLOCK FALSE
