CONSTANTS MaxLen = 6
 Syms = {110, 43, 63, 58, 126, 42}
 Mid = 2
 Precs = {0, 1}
SPECIFICATION Spec
INVARIANT OneTree
INVARIANT YieldOk
CHECK_DEADLOCK FALSE
