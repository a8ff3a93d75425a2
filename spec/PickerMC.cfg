CONSTANT MaxLen = 5
INIT Init
NEXT Next
INVARIANTS Exactly InOrder OnOne Picked Cursor
CHECK_DEADLOCK FALSE
