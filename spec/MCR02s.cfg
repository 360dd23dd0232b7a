INIT InitStrs
NEXT Stay
INVARIANTS StrLaws
CONSTANT Toy <- ToyA
CONSTANT MaxD = 130
CONSTANT Exps <- TheExps
CONSTANT Alphabet = {43, 45, 46, 48, 49, 53, 101, 120, 112}
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
