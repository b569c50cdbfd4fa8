SPECIFICATION Spec
CONSTANTS Frame = 8
 HeaderLen = 2
 OpLen = 2
 AckLen = 2
 NFrames = 4
 Buf = 16
 Attempts = 3
 HeaderMin = 3
INVARIANTS TypeOK Flow FrameThere NoStall NoDeadlock ErrorOnlyAfterAll
PROPERTIES Finishes Monotone PausedHolds
CHECK_DEADLOCK FALSE
