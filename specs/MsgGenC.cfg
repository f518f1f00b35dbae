CONSTANTS Tokens = {"a", "b", "{", "}", " ", ","}
MaxLen = 5
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
