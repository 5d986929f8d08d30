SPECIFICATION Spec
CONSTANTS
  W = 4
  NB = 2
  Revs <- RevsA
  NP = 2
  Cap0 = 1
  Caps <- CapsA
  MaxOps = 6
  NV = 1
  Apis = {"set", "store"}
  Bug = ""
INVARIANTS Found Mirror Ordered Enumerable LenExact InUse Slots
VIEW View
CHECK_DEADLOCK FALSE
