INIT InitS05
NEXT Stay
INVARIANT TokLaws

CONSTANT Alpha = {43, 45, 46, 48, 49, 101, 120, 97, 112, 32, 44}
CONSTANT MaxLen = 4
CONSTANT PatLen = 2
CHECK_DEADLOCK FALSE
