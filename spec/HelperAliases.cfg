SPECIFICATION Spec
INVARIANT Conforms
INVARIANT Count
CHECK_DEADLOCK FALSE
