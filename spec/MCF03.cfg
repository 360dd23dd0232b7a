CONSTANTS MaxPieces = 3
 MaxN = 4
SPECIFICATION Spec
INVARIANTS ExactlyOnce Complete NeedSound OneShot
PROPERTIES Forward Progress NothingAfter
CHECK_DEADLOCK FALSE
