SPECIFICATION Spec
CONSTANTS
  IdPool = {"a", "b", "c"}
  Values = {1}
  MaxSlots = 3
  Deg = 2
  MaxCandidates = 2
  MaxBatch = 2
  WithDisk = FALSE
INVARIANTS IdsExact ContentBound WellFormed NoDeadEdges SearchSafe CompactedFull
PROPERTIES SameAnswers SaveOfConsolidated
CHECK_DEADLOCK FALSE
