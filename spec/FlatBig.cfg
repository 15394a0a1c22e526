SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxQ = 3
  MaxK = 2
  MaxD = 2
  Threads = {t1, t2}
INVARIANTS Apart Exact
CHECK_DEADLOCK FALSE
