SPECIFICATION Spec
CONSTANTS
  Addrs = {0, 1, 2}
  Values = {0, 96}
  RTS = 96
  Layouts <- MCLayouts
INVARIANTS Guarded Sharp
PROPERTIES Protected Quiet
CHECK_DEADLOCK FALSE
