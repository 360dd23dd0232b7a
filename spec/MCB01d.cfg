CONSTANTS
 A = {65, 47, 61, 103, 33}
 MaxLen = 8
 Chunk = 1
INIT InitText
NEXT Stay
INVARIANT DecodeLaws
CHECK_DEADLOCK FALSE
