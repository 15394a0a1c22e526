SPECIFICATION DSpec
CONSTANTS
  Methods = 3
  Args = 3
  Values <- SmallValues
INVARIANTS AtEnd Promise
CHECK_DEADLOCK FALSE
