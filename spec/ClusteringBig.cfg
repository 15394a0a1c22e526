SPECIFICATION Spec
CONSTANTS
  N = 3
  Cents = {1, 2, 3}
  Workers = {1, 2}
  Locked = TRUE
INVARIANTS AllKept AssignedRight Once Reduced FailsWithReason
CHECK_DEADLOCK FALSE
