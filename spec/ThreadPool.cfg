SPECIFICATION Spec
CONSTANTS
  MaxWorkers = 3
  Clients = {1, 2}
  JobsEach = 1
  Resizes = 2
INVARIANTS ReturnedAfterAll ErrorExactly NoneAbandoned Healthy
PROPERTIES EveryCallEnds
CHECK_DEADLOCK FALSE
