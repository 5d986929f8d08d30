SPECIFICATION Spec
CONSTANTS
  NK = 3
  NV = 1
  Procs = {1}
  MaxOps = 1000
  Bug = ""
INVARIANTS Linearizable AtRest OnePlace Announced
VIEW View1
ACTION_CONSTRAINT EmitC
CHECK_DEADLOCK FALSE
