CONSTANTS MaxArgs = 2
MaxCtx = 2
Levels = {5, 10, 20, 25, 30, 40, 50, 60, 7}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
