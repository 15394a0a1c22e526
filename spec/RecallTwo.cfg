SPECIFICATION DSpec
CONSTANTS
  Ids = {0, 1, 2}
  Cols = 2
  Queries = 2
INVARIANTS AtEnd
CHECK_DEADLOCK FALSE
