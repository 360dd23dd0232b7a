CONSTANTS
 Cap = 4
 Bases = {0, 1}
 Ids = {1, 2, 3}
 Sizes = {1, 2}
 Aligns = {1, 2}
INIT Init
NEXT Next
VIEW StateView
INVARIANT Inside Aligned Disjoint Kept
PROPERTY Stays
CHECK_DEADLOCK FALSE
