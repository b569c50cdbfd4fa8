SPECIFICATION Spec
CONSTANTS Frame = 11  OpLen = 3  AckLen = 2  TermLen = 2  Limits <- MCLimits  Supplies <- MCSupplies
INVARIANTS TypeOK NoStraddle AckPlacement AckEveryFrame Steering WholeFrames OneTerminate TerminateLast LimitRespected PadNeeded NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
