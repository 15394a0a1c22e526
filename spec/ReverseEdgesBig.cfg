SPECIFICATION Spec
CONSTANTS
  N = 3
  Deg = 2
  Workers = {1, 2}
INVARIANTS Bounded Delivered NothingElse OriginalsStay
PROPERTIES Ends
CHECK_DEADLOCK FALSE
