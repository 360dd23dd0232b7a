CONSTANTS
 Depth = 3
 Small = {1, 2}
 Large = {5}
 Steps = {"k", "A", "n", "z", "Z", "c", "m", "C", "M", "u", "U", "s", "a"}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
