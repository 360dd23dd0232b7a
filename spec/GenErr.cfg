CONSTANTS
 Depth = 3
 Flags = {4, 30, 20}
 CbSet = {1, 2}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
