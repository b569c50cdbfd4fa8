SPECIFICATION Spec
CONSTANTS Dual = TRUE  N = 2  Values = {0, 42, 85, 255}
INVARIANT Mirror
PROPERTY OneByte
CHECK_DEADLOCK FALSE
