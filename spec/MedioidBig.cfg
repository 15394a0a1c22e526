SPECIFICATION DSpec
CONSTANTS
  Values = {0, 1, 3, 4}
  MaxN = 5
  Workers = 3
  MaxChunk = 3
INVARIANTS AtEnd
CHECK_DEADLOCK FALSE
