SPECIFICATION Spec
CONSTANTS
  N = 4
  Coord = {0,1,2,3,5}
  Dims = 1
  Kind = "L2"
  Alphas <- AlphaL2
  MaxLimit = 3
INVARIANTS Bounded OneScan
CHECK_DEADLOCK FALSE
