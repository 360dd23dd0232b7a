CONSTANTS
 Cls = "rs"
 N = 4
 Depth = 2
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
