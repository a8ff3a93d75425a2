INIT Init
NEXT Next
CONSTANT Env <- NoEnv
POSTCONDITION Post
CHECK_DEADLOCK FALSE
