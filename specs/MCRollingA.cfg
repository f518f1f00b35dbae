CONSTANTS Lens = {1, 2}
 MaxSize = 3
 MaxBackups = 0
 MaxAge = 0
 Compress = FALSE
 MaxWrites = 5
 MaxCrashes = 1
 Gran = 2
SPECIFICATION Spec
INVARIANTS NoLoss Suffix Intact NoFileTooBig NamesOrdered Settled
PROPERTIES RemoveRight
CHECK_DEADLOCK FALSE
