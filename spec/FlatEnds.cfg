SPECIFICATION Spec
CONSTANTS
  MaxN = 2
  MaxQ = 2
  MaxK = 2
  MaxD = 1
  Threads = {t1, t2}
INVARIANTS Apart Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
