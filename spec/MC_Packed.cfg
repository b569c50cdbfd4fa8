SPECIFICATION Spec
CONSTANTS Dual = FALSE  N = 3  Values = {0, 65, 128, 166, 255}
INVARIANT Mirror
PROPERTY OneByte
CHECK_DEADLOCK FALSE
