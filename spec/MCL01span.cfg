CONSTANTS
 Cls = "span"
 N = 4
INIT Init
NEXT Next
INVARIANTS Stays KeepsRight KeepsAll Agree Parts
PROPERTY Narrows
CHECK_DEADLOCK FALSE
