SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS MachineIsUAX29 Partition Restartable
CHECK_DEADLOCK FALSE
