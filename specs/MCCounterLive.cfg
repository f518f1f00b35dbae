CONSTANTS Gs = {1, 3}
 Xs = {1, 2}
 Shards = 2
 Keys <- Keys1
 MaxCalls = 2
 MayFail = FALSE
SPECIFICATION LiveSpec
INVARIANTS Conserved
PROPERTIES CountReturns ExportReturns
CHECK_DEADLOCK FALSE
