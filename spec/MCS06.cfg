INIT InitS06
NEXT Stay
INVARIANT EditLaws

CONSTANT Alpha = {97, 98}
CONSTANT MaxLen = 5
CONSTANT PatLen = 2
CHECK_DEADLOCK FALSE
