SPECIFICATION Spec
CONSTANTS
  N = 3
  Cents = {1, 2}
  Workers = {1, 2}
  Locked = TRUE
INVARIANTS AllKept AssignedRight Once Reduced FailsWithReason
PROPERTY Ends
CHECK_DEADLOCK FALSE
