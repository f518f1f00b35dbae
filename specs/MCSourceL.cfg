CONSTANTS Alphabet = {49, 194, 160}
 MaxLen = 4
 MaxN = 5
 MaxZero = 1
SPECIFICATION Spec
INVARIANT SameResult
INVARIANT SameRest
INVARIANT NeverBlind
CHECK_DEADLOCK FALSE
