SPECIFICATION Spec
CONSTANTS
  N = 4
  Coord = {0,1,2}
  Dims = 2
  Kind = "IP"
  Alphas <- AlphaIP
  MaxLimit = 3
INVARIANTS Bounded OneScan
CHECK_DEADLOCK FALSE
