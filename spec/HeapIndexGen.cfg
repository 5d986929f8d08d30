SPECIFICATION Spec
CONSTANTS
  NB = 4
  LV = 2
  Revs <- RevsG
  MaxPer = 1
  MaxIns = 4
  NV = 1
  Bug = ""
ACTION_CONSTRAINT EmitC
VIEW View
CHECK_DEADLOCK FALSE
