SPECIFICATION DSpec
CONSTANTS
  Values = {0, 1, 3, 4}
  MaxN = 4
  Workers = 2
  MaxChunk = 3
INVARIANTS AtEnd
CHECK_DEADLOCK FALSE
