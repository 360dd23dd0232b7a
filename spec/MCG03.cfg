CONSTANTS Vals = {1, 2}
 MaxSize = 6
INIT Init
NEXT Next
INVARIANTS Empty Sizes Names
PROPERTY Kept
CHECK_DEADLOCK FALSE
