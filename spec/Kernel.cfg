CONSTANTS
    MaxLength = 40
    Widths = {1, 2, 3, 4, 8}
SPECIFICATION Spec
INVARIANTS NothingOutside EachOnce
PROPERTY Ends
CHECK_DEADLOCK FALSE
