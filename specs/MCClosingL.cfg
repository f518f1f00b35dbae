CONSTANTS Callers = {1, 2, 3}
 MaxRes = 2
 Errors = {7, 8}
 Copying = TRUE
SPECIFICATION Spec
INVARIANT Ends
INVARIANT Untouched
