SPECIFICATION Spec
CONSTANTS
  MaxLen = 26
  Cap = 10
INVARIANTS InOrder Bounded Complete Surfaces
PROPERTY Nothing_waits
