INIT Init
NEXT Next
INVARIANTS Whole Durable Foreign
CHECK_DEADLOCK FALSE
