INIT InitS02
NEXT Stay
INVARIANT LookLaws

CONSTANT Alpha = {97, 98}
CONSTANT MaxLen = 6
CONSTANT PatLen = 3
CHECK_DEADLOCK FALSE
