CONSTANTS
 Cap = 6
 Bases = {0, 3}
 Ids = {1, 2, 3}
 Sizes = {1, 3}
 Aligns = {1, 4}
INIT Init
NEXT Next
VIEW StateView
INVARIANT Inside Aligned Disjoint Kept
PROPERTY Stays
CHECK_DEADLOCK FALSE
