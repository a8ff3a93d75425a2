INIT Init
NEXT Next
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
