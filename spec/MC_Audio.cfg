SPECIFICATION Spec
CONSTANTS
  Rate = 3
  Rates = {1, 2, 3, 4, 7}
  MaxLen = 12
  FrameSize = 2
  MaxBlock = 5
INVARIANTS ExactDuration WholeSeconds NeverAhead NotFarBehind
PROPERTY Ends
