CONSTANTS Procs = {p1, p2}
Bufs = {b1, b2, b3}
Events = 3
SPECIFICATION Spec
INVARIANTS Exclusive Whole Once Ordered
PROPERTIES All
CHECK_DEADLOCK FALSE
