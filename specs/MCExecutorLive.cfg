CONSTANTS
  Tasks = {t1, t2}
  Waiters = {w1}
  Stoppers = {s1}
  Sites = {x}
SPECIFICATION Spec
INVARIANTS NoEarlyReturn WaitCancels CountsExact ReportedOnce
PROPERTIES RunsOnce WaitEnds TaskEnds
CHECK_DEADLOCK FALSE
