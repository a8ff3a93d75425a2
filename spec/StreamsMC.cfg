CONSTANT MaxLen = 6
INIT Init
NEXT Next
INVARIANTS Conserved Outside Written
CHECK_DEADLOCK FALSE
