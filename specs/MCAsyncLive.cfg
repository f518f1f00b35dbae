CONSTANTS Writes = {1, 2, 3}
 Modes = {"block", "drop"}
 Caps = {1}
 MayExpire = FALSE
SPECIFICATION LiveSpec
INVARIANTS TypeOK Once Kept Stalled BlockNeverDrops CloseDelivers NoWriteAfterClose
PROPERTIES Fifo WritesReturn NeverWaits CloseReturns Delivered
CHECK_DEADLOCK FALSE
