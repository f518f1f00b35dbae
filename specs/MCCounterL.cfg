CONSTANTS Gs = {1, 2, 3}
 Xs = {1}
 Shards = 2
 Keys <- Keys2
 MaxCalls = 4
 MayFail = TRUE
SPECIFICATION Spec
INVARIANTS NeverMore Conserved PointAllowed AllDelivered MapsMine
CHECK_DEADLOCK FALSE
