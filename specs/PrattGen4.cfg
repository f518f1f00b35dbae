CONSTANTS MaxLen = 4
 Kinds = {"n", "(", ")", "p", "P", "a", "b", "r", "!", "?", ":"}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
