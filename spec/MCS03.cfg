INIT InitS03
NEXT Stay
INVARIANT OrderLaws

CONSTANT Alpha = {97, 98, 200}
CONSTANT MaxLen = 3
CONSTANT PatLen = 2
CHECK_DEADLOCK FALSE
