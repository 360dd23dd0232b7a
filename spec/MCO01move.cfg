CONSTANTS
 N = 4
 Kind = "move"
 MaxMade = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip Agree
PROPERTIES Conserves NoNew
CHECK_DEADLOCK FALSE
