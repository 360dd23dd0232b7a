CONSTANTS
 N = 3
 Kind = "copy"
 MaxMade = 0
 Depth = 2
 Type = "cpy"
 Itype = "u8"
INIT GInit
NEXT GStep
INVARIANT Emit
CHECK_DEADLOCK FALSE
