SPECIFICATION Spec
INVARIANTS Conforms Complete
CHECK_DEADLOCK FALSE
