CONSTANTS MaxLen = 5
 Syms = {110, 43, 42, 94, 33, 45, 126, 40, 41}
 Mid = 0
 Precs = {0, 2}
SPECIFICATION Spec
INVARIANT OneTree
INVARIANT YieldOk
CHECK_DEADLOCK FALSE
