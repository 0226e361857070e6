SPECIFICATION Spec
INVARIANTS Same Laws
CHECK_DEADLOCK FALSE
