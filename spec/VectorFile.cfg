CONSTANTS
    MaxN = 2
    MaxD = 2
    Sizes = {1, 2}
    Bytes = {0, 1}
SPECIFICATION Spec
INVARIANTS Whole Partial AgreesWithRule TellingTells
PROPERTY Ends
CHECK_DEADLOCK FALSE
