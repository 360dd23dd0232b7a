CONSTANTS
 Flags = {0, 4, 15, 20}
 MaxScopes = 3
INIT Init
NEXT Next
INVARIANTS Ends OneReport Depths
PROPERTY Restores
CHECK_DEADLOCK FALSE
