SPECIFICATION Spec
CONSTANTS
  Queries = {1, 2}
  N = 2
  MaxK = 2
  MaxLen = 2
  Threads = {1, 2}
  MaxCalls = 2
  Resets = TRUE
INVARIANTS RowsRight Complete ErrorsShow
PROPERTY Returns
CHECK_DEADLOCK FALSE
