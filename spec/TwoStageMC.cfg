SPECIFICATION Spec
CONSTANTS Size = 8  Values = {0, 1, 2}
INVARIANTS Faithful Shares Flushed Complete IndexFits
CHECK_DEADLOCK FALSE
