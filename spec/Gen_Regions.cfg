SPECIFICATION GenSpec
CONSTANTS
  N = 12
  Addrs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  Layouts = {}
  Values = {}
  RTS = 96
  MaxOps = 60
INVARIANTS Guarded Sharp

CHECK_DEADLOCK FALSE
