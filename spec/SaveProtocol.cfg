SPECIFICATION Spec
CONSTANTS
  Parts <- Index
  ByName = {"config"}
  Places = {"p"}
  MaxLen = 2
  MaxSaves = 3
  Invalidate = TRUE
  Atomic = TRUE
  Notices = TRUE
  ConfigLast = TRUE
  Lengths = TRUE
INVARIANTS Faithful Always Typed
CHECK_DEADLOCK FALSE
