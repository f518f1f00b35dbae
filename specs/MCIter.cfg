CONSTANTS Keys = {1, 2, 3, 4}
SPECIFICATION Spec
INVARIANT OnceEach
PROPERTY Ends
CHECK_DEADLOCK FALSE
