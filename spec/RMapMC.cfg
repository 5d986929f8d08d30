SPECIFICATION Spec
CONSTANTS
  NK = 2
  NV = 1
  Procs = {1, 2}
  MaxOps = 3
  Bug = ""
INVARIANTS Linearizable AtRest OnePlace Announced
VIEW View
CHECK_DEADLOCK FALSE
