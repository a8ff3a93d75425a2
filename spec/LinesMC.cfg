CONSTANT MaxLen = 2
INIT Init
NEXT Next
INVARIANTS Whole Complete
CHECK_DEADLOCK FALSE
