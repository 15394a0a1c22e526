SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Rounds = 3
INVARIANTS Exclusive HeldMeansIn
PROPERTIES Entered
CHECK_DEADLOCK FALSE
