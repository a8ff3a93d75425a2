CONSTANT MaxLen = 4
INIT Init
NEXT Next
INVARIANT Good
CHECK_DEADLOCK FALSE
