INIT Init
NEXT Next
CONSTANT Env <- NoEnv
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
