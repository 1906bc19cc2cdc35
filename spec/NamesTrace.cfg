SPECIFICATION Spec
INVARIANTS Conforms Unique
CHECK_DEADLOCK FALSE
