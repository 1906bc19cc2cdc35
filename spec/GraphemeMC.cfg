SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS MachineIsUAX29 Partition Restartable
CHECK_DEADLOCK FALSE
