CONSTANTS MaxLen = 7
 Syms = {110, 43, 63, 58, 126}
 Mid = 0
 Precs = {0, 1}
SPECIFICATION Spec
INVARIANT OneTree
INVARIANT YieldOk
CHECK_DEADLOCK FALSE
