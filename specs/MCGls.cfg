CONSTANTS G = {1, 2, 3}
 K = {1}
 V = {1, 2}
 W = {1, 2}
SPECIFICATION Spec
INVARIANTS Private Gone
PROPERTY SnapFixed
CHECK_DEADLOCK FALSE
