CONSTANTS MaxOps = 4
 Lens = {1, 2, 4, 5}
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
