SPECIFICATION Spec
CONSTANTS Size = 12  Values = {0, 1}
INVARIANTS Faithful Shares Flushed Complete IndexFits
CHECK_DEADLOCK FALSE
