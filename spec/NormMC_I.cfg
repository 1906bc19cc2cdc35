SPECIFICATION Spec
CONSTANTS
 Alphabet = {2325,2364,2381,2392,3953,3954,3955,3956}
 MaxLen = 4
 Compat = FALSE
INVARIANTS Confluent Laws
CHECK_DEADLOCK FALSE
