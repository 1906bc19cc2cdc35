SPECIFICATION Spec
INVARIANTS Conforms Consumed
CHECK_DEADLOCK FALSE
