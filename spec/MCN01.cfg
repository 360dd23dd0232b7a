CONSTANTS Depth = 5
 Seeds = {0, 77}
INIT Init
NEXT Next
INVARIANTS Same Ranges Known
CHECK_DEADLOCK FALSE
