CONSTANTS
 Cap = 12
 Bases = {3}
 Ids = {1, 2, 3}
 Sizes = {4, 5}
 Aligns = {1, 4}
 Depth = 4
INIT GInit
NEXT GNext
INVARIANT Emit
CHECK_DEADLOCK FALSE
