CONSTANTS
 N = 4
 Kind = "copy"
 MaxMade = 3
INIT Init
NEXT Next
INVARIANTS RoundTrip Agree
PROPERTIES Conserves NoNew
CHECK_DEADLOCK FALSE
