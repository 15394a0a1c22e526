SPECIFICATION Spec
CONSTANTS
  MaxN = 3
  MaxQ = 2
  MaxK = 2
  MaxD = 1
  Threads = {t1, t2}
INVARIANTS Apart Exact
CHECK_DEADLOCK FALSE
