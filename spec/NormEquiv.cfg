SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS EquivalenceKept Emit
VIEW View
CHECK_DEADLOCK FALSE
