CONSTANTS
 N = 4
 Ids = {1, 2, 3}
 Sizes = {0, 1, 2, 4}
 Aligns = {1, 2}
 DefAl = 2
 Step = 4
INIT Init
NEXT Next
CONSTRAINT Bound
INVARIANT Apart Inside Matches
PROPERTY First
CHECK_DEADLOCK FALSE
