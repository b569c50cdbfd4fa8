SPECIFICATION PSpec
CONSTANTS Dual = FALSE  Rows <- MCRows
INVARIANTS ContextDots PositionOnly
CHECK_DEADLOCK FALSE
