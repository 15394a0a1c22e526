SPECIFICATION Spec
CONSTANTS
  MaxW = 4
  MaxC = 4
  Modes = {"Disable", "All", "ROIOnly", "ROITuneUp"}
INVARIANTS OnlyAllowed WellFormed AtEnd
PROPERTY Ends
CHECK_DEADLOCK FALSE
