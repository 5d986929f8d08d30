SPECIFICATION Spec
CONSTANTS
  NK = 2
  NV = 1
  Procs = {1, 2}
  MaxOps = 2
  Ops = {"set", "del", "get", "isetv", "len", "range"}
  Bug = ""
INVARIANTS Linearizable AtRest RangeOK Exclusive
CHECK_DEADLOCK TRUE
