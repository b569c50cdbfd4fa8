SPECIFICATION Spec
CONSTANTS Switches = {1, 2, 7, 8, 9, 12}
INVARIANT Remembers
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
