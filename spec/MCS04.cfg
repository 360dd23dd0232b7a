INIT InitS04
NEXT Stay
INVARIANT SplitLaws

CONSTANT Alpha = {97, 47, 98}
CONSTANT MaxLen = 7
CONSTANT PatLen = 2
CHECK_DEADLOCK FALSE
