SPECIFICATION Spec
INVARIANT PairsAgree
CHECK_DEADLOCK FALSE
