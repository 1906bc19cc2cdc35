SPECIFICATION Spec
INVARIANTS IsLossless Protocol
CHECK_DEADLOCK FALSE
