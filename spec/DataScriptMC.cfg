SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS Right OthersKept OnePerTarget NothingYet
PROPERTY Ends
CHECK_DEADLOCK FALSE
