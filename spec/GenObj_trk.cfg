CONSTANTS
 N = 5
 Kind = "move"
 MaxMade = 0
 Depth = 1
 Type = "trk"
 Itype = "size"
INIT GInit
NEXT GStep
INVARIANT Emit
CHECK_DEADLOCK FALSE
