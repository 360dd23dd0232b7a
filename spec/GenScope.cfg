CONSTANT Depth = 5
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
