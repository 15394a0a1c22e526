SPECIFICATION DSpec
CONSTANTS
  Methods = 4
  Args = 2
  Values <- SmallValues
INVARIANTS AtEnd Promise
CHECK_DEADLOCK FALSE
