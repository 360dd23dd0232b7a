INIT InitVals
NEXT Stay
INVARIANTS ValLaws BigLaws
CONSTANT Vals <- EdgeVals
CONSTANT Strs = {48}
CONSTANT MaxLen = 1
CHECK_DEADLOCK FALSE
