SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Harmless Anywhere Later
CHECK_DEADLOCK FALSE
