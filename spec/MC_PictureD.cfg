SPECIFICATION PSpec
CONSTANTS Dual = TRUE  Rows <- MCRows
INVARIANTS ContextDots PositionOnly
CHECK_DEADLOCK FALSE
