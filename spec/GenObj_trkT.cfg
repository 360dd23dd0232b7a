CONSTANTS
 N = 4
 Kind = "move"
 MaxMade = 0
 Depth = 2
 Type = "trk"
 Itype = "int"
INIT GInit
NEXT GStep
INVARIANT Emit
CHECK_DEADLOCK FALSE
