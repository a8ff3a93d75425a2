INIT Init
NEXT Next
POSTCONDITION Post
CHECK_DEADLOCK FALSE
