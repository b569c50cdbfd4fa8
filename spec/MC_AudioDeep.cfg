SPECIFICATION Spec
CONSTANTS
  Rate = 5
  Rates = {1, 3, 4, 5, 8, 11}
  MaxLen = 30
  FrameSize = 4
  MaxBlock = 13
INVARIANTS ExactDuration WholeSeconds NeverAhead NotFarBehind
PROPERTY Ends
