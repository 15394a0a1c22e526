SPECIFICATION Spec
CONSTANTS
  NC = 2
  NL = 3
  Kinds = {"L2", "IP"}
  MinD = 1
  MaxD = 2
  Epsilons <- Eps
  MaxK = 3
INVARIANTS ClosestAlways RightRow Clean

CHECK_DEADLOCK FALSE
