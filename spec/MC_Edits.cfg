SPECIFICATION Spec
INVARIANTS Ordered Count
CHECK_DEADLOCK FALSE
