SPECIFICATION Spec
CONSTANTS
  Clients = {"a", "b", "c"}
  Versions = {"v", "w"}
  SizeOf <- Sizes
  Buffer = 1
INVARIANTS Whole Within

