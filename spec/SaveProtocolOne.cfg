SPECIFICATION Spec
CONSTANTS
  Parts <- One
  ByName = {"config"}
  Places = {"p", "q"}
  MaxLen = 2
  MaxSaves = 4
  Invalidate = TRUE
  Atomic = TRUE
  Notices = TRUE
  ConfigLast = TRUE
  Lengths = TRUE
INVARIANTS Faithful Always Typed
CHECK_DEADLOCK FALSE
