CONSTANTS Depth = 6
 Slots = 3
 Types = {"t", "c", "r"}
 Values = {1, 2}
INIT Init
NEXT Next
INVARIANTS Right Same NothingForgotten OneEach Laws
CHECK_DEADLOCK FALSE
