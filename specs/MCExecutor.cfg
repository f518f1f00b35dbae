CONSTANTS
  Tasks = {t1, t2, t3}
  Waiters = {w1}
  Stoppers = {s1}
  Sites = {x, y}
SPECIFICATION Spec
INVARIANTS NoEarlyReturn WaitCancels CountsExact ReportedOnce
PROPERTIES RunsOnce
CHECK_DEADLOCK FALSE
