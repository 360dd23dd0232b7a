CONSTANT MaxArgs = 3
INIT InitWrite
NEXT Stay
INVARIANT WriteLaws
CHECK_DEADLOCK FALSE
