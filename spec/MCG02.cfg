CONSTANTS MaxLen = 5
 Alphabet = {0, 97, 255}
INIT Init
NEXT Next
INVARIANTS Incremental Known Repeats Symmetric
CHECK_DEADLOCK FALSE
