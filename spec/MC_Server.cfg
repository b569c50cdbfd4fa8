SPECIFICATION Spec
CONSTANTS
  Clients = {"a", "b"}
  Versions = {"v", "w"}
  SizeOf <- Sizes
  Buffer = 1
INVARIANTS Whole Within
PROPERTY Served
