SPECIFICATION Spec
CONSTANT Order = "sorted"
INVARIANTS Same Honest
CHECK_DEADLOCK FALSE
