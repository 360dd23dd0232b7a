CONSTANTS
 N = 4
 Kind = "copy"
 MaxMade = 0
 Depth = 1
 Type = "cpy"
 Itype = "u8"
INIT GInit
NEXT GStep
INVARIANT Emit
CHECK_DEADLOCK FALSE
