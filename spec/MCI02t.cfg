INIT InitStrs
NEXT Stay
INVARIANTS StrLaws
CONSTANT Vals = {0}
CONSTANT Strs = {43, 45, 48, 49, 57, 97, 98, 111, 120, 32, 44}
CONSTANT MaxLen = 5
CHECK_DEADLOCK FALSE
