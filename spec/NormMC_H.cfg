SPECIFICATION Spec
CONSTANTS
 Alphabet = {4352,4449,4520,44032,44033,769,12334}
 MaxLen = 4
 Compat = FALSE
INVARIANTS Confluent Laws
CHECK_DEADLOCK FALSE
