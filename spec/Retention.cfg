SPECIFICATION Spec
CONSTANTS
  Store = "heap"
  NK = 4
  Cap0 = 1
  MaxObj = 6
  Bug = ""
INVARIANTS Linked Values Where
CHECK_DEADLOCK FALSE
