CONSTANTS Alphabet = {97, 98, 123, 125, 32, 44}
MaxLen = 8
SPECIFICATION Spec
INVARIANTS Verbatim One Order FirstWins More Concat Unclosed
CHECK_DEADLOCK FALSE
