SPECIFICATION Spec
INVARIANTS Conforms Distinct Booleans
CHECK_DEADLOCK FALSE
