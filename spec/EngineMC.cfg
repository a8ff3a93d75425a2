INIT Init
NEXT Next
CONSTANT Env <- NoEnv
INVARIANT InvOnce InvDeps InvOrder InvPre InvLimit InvContained InvOutcome InvSettled
CHECK_DEADLOCK TRUE
