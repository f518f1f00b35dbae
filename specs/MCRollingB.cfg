CONSTANTS Lens = {1, 2}
 MaxSize = 3
 MaxBackups = 1
 MaxAge = 0
 Compress = TRUE
 MaxWrites = 3
 MaxCrashes = 1
 Gran = 2
SPECIFICATION Spec
INVARIANTS NoLoss Suffix Intact NoFileTooBig NamesOrdered Settled
PROPERTIES RemoveRight
CHECK_DEADLOCK FALSE
