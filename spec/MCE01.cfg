CONSTANT MaxBits = 8
INIT Init
NEXT Next
INVARIANTS RoundTrip HasText Exact Names Values
CHECK_DEADLOCK FALSE
