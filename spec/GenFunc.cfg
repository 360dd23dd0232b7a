CONSTANTS
 Depth = 3
 Small = {1, 2}
 Large = {5}
 Steps = {"k", "n", "Z", "c", "m", "C", "M", "U", "s", "a"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
