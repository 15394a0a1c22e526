SPECIFICATION DSpec
CONSTANTS
  MaxN = 4
  BlockSize = 2
  MaxBatch = 3
INVARIANTS Agrees
CHECK_DEADLOCK FALSE
