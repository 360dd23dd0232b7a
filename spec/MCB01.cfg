CONSTANTS
 A = {0, 1, 128, 255, 90}
 MaxLen = 6
 Chunk = 1
INIT InitData
NEXT Stay
INVARIANT EncodeLaws
CHECK_DEADLOCK FALSE
