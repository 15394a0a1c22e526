SPECIFICATION Spec
CONSTANTS
  MaxWorkers = 2
  Clients = {1, 2}
  JobsEach = 2
  Resizes = 2
INVARIANTS ReturnedAfterAll ErrorExactly NoneAbandoned Healthy
PROPERTIES EveryCallEnds
CHECK_DEADLOCK FALSE
