SPECIFICATION Spec
CONSTANTS
  NB = 4
  LV = 2
  Revs <- RevsG
  MaxPer = 1
  MaxIns = 5
  MaxOps = 7
  NV = 1
  Bug = ""
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT EmitC
