CONSTANT MaxArgs = 2
INIT InitRead
NEXT Stay
INVARIANT ReadLaws
CHECK_DEADLOCK FALSE
