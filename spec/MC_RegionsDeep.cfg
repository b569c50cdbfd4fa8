SPECIFICATION Spec
CONSTANTS
  Addrs = {0, 1, 2, 3}
  Values = {0, 96}
  RTS = 96
  Layouts <- MCLayoutsDeep
INVARIANTS Guarded Sharp
PROPERTIES Protected Quiet
CHECK_DEADLOCK FALSE
