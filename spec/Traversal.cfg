SPECIFICATION Spec
CONSTANTS
  N = 3
  NDist = 2
  MaxCap = 3
  MaxDeg = 2
  WithDead = TRUE
INVARIANTS FilterHarmless ExpandedOnce OnlyReachable BufferFine BestOfferedKept Exact Agrees
PROPERTY Ends
CHECK_DEADLOCK FALSE
