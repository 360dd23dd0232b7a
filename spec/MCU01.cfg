CONSTANTS
 A = {}
 MaxLen = 0
 Chunk = 512
INIT InitCode
NEXT Stay
INVARIANT CodeLaws
CHECK_DEADLOCK FALSE
