SPECIFICATION Spec
CONSTANT Order = "any"
INVARIANTS Same
CHECK_DEADLOCK FALSE
