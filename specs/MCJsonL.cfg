CONSTANTS Chars = {34, 92, 117, 65, 10, 48}
 MaxLen = 2
 Rich = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrip Unambiguous
CHECK_DEADLOCK FALSE
