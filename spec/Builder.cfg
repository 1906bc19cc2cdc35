SPECIFICATION Spec
INVARIANTS Lossless Shared
CHECK_DEADLOCK FALSE
