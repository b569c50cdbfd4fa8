SPECIFICATION GSpec
CONSTANTS Scrns = {1, 2}  Cells <- MCCells  Values = {0, 1}  MaxOps = 4
INVARIANT Coherent
PROPERTY OneCell
CHECK_DEADLOCK FALSE
