SPECIFICATION Spec
CONSTANTS
 Alphabet = {97,778,769,803,807,197,8491}
 MaxLen = 4
 Compat = FALSE
INVARIANTS Confluent Laws
CHECK_DEADLOCK FALSE
