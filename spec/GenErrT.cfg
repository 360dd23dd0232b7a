CONSTANTS
 Depth = 3
 Flags = {0, 6, 20}
 CbSet = {0, 1, 3}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
