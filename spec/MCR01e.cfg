INIT InitReals
NEXT Stay
INVARIANTS ExactLaws
CONSTANT Toy <- ToyB
CONSTANT MaxD = 0
CONSTANT Exps <- NoExps
CONSTANT Alphabet = {43, 45, 46, 48, 49, 53, 101, 120, 112}
CONSTANT MaxLen = 4
CHECK_DEADLOCK FALSE
