SPECIFICATION Spec
CONSTANTS
  Cands = {1, 2, 3, 4}
  Dists = {1, 2, 3}
  MaxCap = 3
  AllLive = FALSE
INVARIANTS Same DoneAgrees CursorAgrees SkipHarmless OrderedDistinct BestLiveKept NearerDeletedKept Bounded OnlyOffered NoStarvation
CHECK_DEADLOCK FALSE
