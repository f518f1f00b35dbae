CONSTANTS Callers = {1, 2}
 MaxRes = 3
 Errors = {7, 8}
 Copying = TRUE
SPECIFICATION Spec
INVARIANT Ends
INVARIANT Untouched
