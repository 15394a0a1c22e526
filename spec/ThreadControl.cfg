SPECIFICATION Spec
CONSTANTS
  MaxJobs = 3
  Spurious = 2
INVARIANTS OnceInOrder ReleasedAfter ClosedAfter FailureSticks RejectedOnlyAfterFailure NoConcurrencyViolation Mutex
PROPERTIES JobsRun CallsEnd
CHECK_DEADLOCK FALSE
