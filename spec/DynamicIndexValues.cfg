SPECIFICATION Spec
CONSTANTS
  IdPool = {"a", "b"}
  Values = {1, 2}
  MaxSlots = 3
  Deg = 1
  MaxCandidates = 2
  MaxBatch = 2
  WithDisk = TRUE
INVARIANTS IdsExact ContentBound WellFormed NoDeadEdges SearchSafe CompactedFull
PROPERTIES SameAnswers SaveOfConsolidated
CHECK_DEADLOCK FALSE
