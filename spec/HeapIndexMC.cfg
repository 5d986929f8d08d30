SPECIFICATION Spec
CONSTANTS
  NB = 2
  LV = 3
  Revs <- RevsA
  MaxPer = 1
  MaxIns = 6
  NV = 2
  Bug = ""
INVARIANTS Found FoundUpdate Enumerable LenExact Ordered Placed FindExact Slots
PROPERTY Refines
VIEW View
CHECK_DEADLOCK FALSE
