CONSTANTS Lens = {1, 2}
 MaxSize = 3
 MaxBackups = 2
 MaxAge = 1
 Compress = FALSE
 MaxWrites = 3
 MaxCrashes = 1
 Gran = 1
SPECIFICATION Spec
INVARIANTS NoLoss Suffix Intact NoFileTooBig NamesOrdered Settled
PROPERTIES RemoveRight
CHECK_DEADLOCK FALSE
