SPECIFICATION Spec
CONSTANTS Frame = 8  OpLen = 3  AckLen = 2  TermLen = 2  Buf = 16
 Samples <- MCSamplesT
 Cells = {1, 2}
 Chunks = {5, 8}
 Duals = {TRUE, FALSE}
INVARIANTS Heard Believed Still Flow Framed
PROPERTIES Better Quits
CHECK_DEADLOCK FALSE
