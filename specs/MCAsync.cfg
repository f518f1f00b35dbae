CONSTANTS Writes = {1, 2, 3, 4}
 Modes = {"block", "drop"}
 Caps = {1, 2}
 MayExpire = TRUE
SPECIFICATION Spec
INVARIANTS TypeOK Once Kept Stalled BlockNeverDrops CloseDelivers NoWriteAfterClose
PROPERTIES Fifo
CHECK_DEADLOCK FALSE
