INIT InitVals
NEXT Stay
INVARIANTS ValLaws BigLaws
CONSTANT Vals <- ManyVals
CONSTANT Strs = {48}
CONSTANT MaxLen = 1
CHECK_DEADLOCK FALSE
