INIT Init
NEXT Next
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
