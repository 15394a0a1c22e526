SPECIFICATION Spec
CONSTANTS
  Queries = {1, 2}
  N = 3
  MaxK = 2
  MaxLen = 3
  Threads = {1, 2}
  MaxCalls = 2
  Resets = TRUE
INVARIANTS RowsRight Complete ErrorsShow
CHECK_DEADLOCK FALSE
