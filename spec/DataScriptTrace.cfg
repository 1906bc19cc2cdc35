SPECIFICATION Spec
INVARIANTS Conforms Closed
CHECK_DEADLOCK FALSE
