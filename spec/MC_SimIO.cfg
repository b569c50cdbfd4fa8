SPECIFICATION Spec
CONSTANTS Switches = {1, 7, 9, 11}
INVARIANT Remembers
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
