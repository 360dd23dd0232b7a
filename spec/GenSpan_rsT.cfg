CONSTANTS
 Cls = "rs"
 N = 2
 Depth = 3
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
