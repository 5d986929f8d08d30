SPECIFICATION Spec
CONSTANTS
  NM = 2
  NK = 2
  NV = 2
  NI = 3
  MaxOps = 6
  Bug = ""
INVARIANTS Shows OneMap
VIEW ViewN
CHECK_DEADLOCK FALSE
