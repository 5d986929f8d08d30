SPECIFICATION Spec
CONSTANTS
  NK = 1
  NV = 1
  Procs = {1, 2}
  MaxOps = 2
  Bug = ""
INVARIANTS Linearizable AtRest
PROPERTY Ends
CHECK_DEADLOCK FALSE
