SPECIFICATION Spec
CONSTANTS
  Pages = 3  PageSize = 4
  Bytes = {0, 1, 4}
  Most = 2
  Mode = 0  Command = 4  Status = 6
  OPEN = 1  CONNECT = 4
  CLOSED = 0  OPENED = 19  ESTABLISHED = 23
INVARIANTS Walks Halves Told
PROPERTIES Independent OneCell
CONSTRAINT Few
CHECK_DEADLOCK FALSE
