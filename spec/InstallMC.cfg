SPECIFICATION Spec
INVARIANTS Verified AllOrNothing HonestExit Asking
CHECK_DEADLOCK FALSE
