CONSTANTS G = {1, 2, 3}
 K = {1}
 V = {1, 2}
 W = {1, 2}
 Shards = 2
 MaxHeap = 4
 MaxBox = 3
 Bug = "none"
SPECIFICATION Spec
PROPERTY Refines
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
