SPECIFICATION Spec
CONSTANTS
  MaxLen = 9
  Cap = 3
INVARIANTS InOrder Bounded Complete Surfaces
PROPERTY Nothing_waits
