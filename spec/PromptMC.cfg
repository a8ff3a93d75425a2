CONSTANT MaxLen = 5
INIT Init
NEXT Next
INVARIANTS Sane Kept
CHECK_DEADLOCK FALSE
