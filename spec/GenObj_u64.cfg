CONSTANTS
 N = 4
 Kind = "triv"
 MaxMade = 0
 Depth = 1
 Type = "u64"
 Itype = "int"
INIT GInit
NEXT GStep
INVARIANT Emit
CHECK_DEADLOCK FALSE
