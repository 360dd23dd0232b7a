CONSTANTS Depth = 1
 Seeds = {0, 77}
INIT Init
NEXT Next
INVARIANTS Jumps Periods
CHECK_DEADLOCK FALSE
