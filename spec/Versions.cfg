SPECIFICATION Spec
INVARIANTS Conforms Current
CHECK_DEADLOCK FALSE
