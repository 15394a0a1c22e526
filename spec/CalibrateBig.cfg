SPECIFICATION Spec
CONSTANTS
  MaxW = 5
  MaxC = 5
  Modes = {"Disable", "All", "ROIOnly", "ROITuneUp"}
INVARIANTS OnlyAllowed WellFormed AtEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
