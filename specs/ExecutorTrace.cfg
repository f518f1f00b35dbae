CONSTANTS
  Tasks = {1, 2, 3, 4, 5, 6, 7, 8}
  Waiters = {1, 2, 3}
  Stoppers = {1, 2, 3}
  Sites = {1, 2, 3}
SPECIFICATION TraceSpec
CONSTRAINT Progress
POSTCONDITION TraceDone
CHECK_DEADLOCK FALSE
