SPECIFICATION Spec
CONSTANTS
  MaxN = 7
  MaxThreads = 4
  MaxGrain = 8
INVARIANTS DynamicRight NoneTwice
PROPERTIES Ends
CHECK_DEADLOCK FALSE
