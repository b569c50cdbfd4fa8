SPECIFICATION Spec
CONSTANTS Rates <- MCRates  Skips <- MCSkips  Frames <- MCFrames  Samples <- MCSamples
INVARIANTS TypeOK NoDrift OnTime Target Length
PROPERTY Ends
CHECK_DEADLOCK FALSE
