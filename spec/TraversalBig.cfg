SPECIFICATION Spec
CONSTANTS
  N = 4
  NDist = 3
  MaxCap = 4
  MaxDeg = 2
  WithDead = FALSE
INVARIANTS FilterHarmless ExpandedOnce OnlyReachable BufferFine BestOfferedKept Exact Agrees

CHECK_DEADLOCK FALSE
