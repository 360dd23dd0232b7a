CONSTANTS
 MaxScopes = 2
 MaxAllocs = 2
 Sizes = {0, 3}
INIT Init
NEXT Next
INVARIANT Counts Alive
PROPERTY Restores
CHECK_DEADLOCK FALSE
