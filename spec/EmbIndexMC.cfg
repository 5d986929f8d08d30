SPECIFICATION Spec
CONSTANTS
  NB = 2
  LV = 3
  Revs <- RevsA
  MaxPer = 1
  MaxIns = 5
  MaxOps = 100
  NV = 1
  Bug = ""
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Found Enumerable LenExact Arrays SameOrder FindExact
PROPERTY Refines
