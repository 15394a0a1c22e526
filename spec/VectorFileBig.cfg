CONSTANTS
    MaxN = 3
    MaxD = 2
    Sizes = {1, 2}
    Bytes = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS Whole Partial AgreesWithRule TellingTells
CHECK_DEADLOCK FALSE
