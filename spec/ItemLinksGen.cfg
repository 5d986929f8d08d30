SPECIFICATION Spec
CONSTANTS
  NM = 2
  NK = 2
  NV = 1
  NI = 3
  MaxOps = 6
  Bug = ""
ACTION_CONSTRAINT EmitC
VIEW View
CHECK_DEADLOCK FALSE
