CONSTANTS Tokens = {"a", "b", "{", "}", " ", ","}
MaxLen = 6
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
