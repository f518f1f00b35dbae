CONSTANTS MaxArgs = 1
MaxCtx = 1
Levels = {5, 40, 60}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
