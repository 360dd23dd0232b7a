INIT InitS01
NEXT NextS01
INVARIANT InBounds
INVARIANT SelLaws
PROPERTY Nested
CONSTANT Alpha = {97, 39, 92}
CONSTANT MaxLen = 4
CONSTANT PatLen = 2
CHECK_DEADLOCK FALSE
