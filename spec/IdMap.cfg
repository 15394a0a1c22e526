SPECIFICATION DSpec
CONSTANTS
  Out = {11, 12, 13}
  Inn = {1, 2, 3, 4}
  MaxBatch = 3
INVARIANTS Mirror AbstractOneToOne
CHECK_DEADLOCK FALSE
