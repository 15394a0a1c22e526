SPECIFICATION Spec
CONSTANTS
  N = 3
  Coord = {0,1,2}
  Dims = 2
  Kind = "IP"
  Alphas <- AlphaIP
  MaxLimit = 2
INVARIANTS Bounded OneScan
CHECK_DEADLOCK FALSE
