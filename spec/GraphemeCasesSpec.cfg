SPECIFICATION Spec
INVARIANTS SpecAgrees
CHECK_DEADLOCK FALSE
