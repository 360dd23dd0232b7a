CONSTANT W = 8
INIT Init
NEXT Next
INVARIANTS Between MaskVal2 MaskBits Powers Sizes
CHECK_DEADLOCK FALSE
