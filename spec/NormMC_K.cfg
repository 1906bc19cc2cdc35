SPECIFICATION Spec
CONSTANTS
 Alphabet = {64257,7835,803,775,383,8486,836,776}
 MaxLen = 4
 Compat = FALSE
INVARIANTS Confluent Laws
CHECK_DEADLOCK FALSE
