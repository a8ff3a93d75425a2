INIT Init
NEXT Next
CONSTANT Env <- NoEnv
INVARIANT Faithful
CHECK_DEADLOCK TRUE
