SPECIFICATION Spec
CONSTANTS
  W = 8
  NB = 4
  Revs <- RevsG
  NP = 8
  Cap0 = 1
  Caps <- CapsA
  MaxOps = 5
  NV = 1
  Apis = {"set", "store"}
  Bug = ""
ACTION_CONSTRAINT EmitC
VIEW View
CHECK_DEADLOCK FALSE
