CONSTANTS
  Tasks = {1, 2}
  Waiters = {1}
  Stoppers = {1}
  Sites = {1, 2}
  MaxOps = 6
SPECIFICATION GenSpec
INVARIANTS NoEarlyReturn Emit
CHECK_DEADLOCK FALSE
