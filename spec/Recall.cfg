SPECIFICATION DSpec
CONSTANTS
  Ids = {0, 1, 2, 3}
  Cols = 3
  Queries = 1
INVARIANTS AtEnd
CHECK_DEADLOCK FALSE
