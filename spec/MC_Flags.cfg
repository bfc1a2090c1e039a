SPECIFICATION Spec
INVARIANTS Independent Representable
CHECK_DEADLOCK FALSE
