SPECIFICATION Spec
CONSTANTS
  NI = 2
  NK = 3
  NV = 1
  Ranks <- R1
INVARIANTS TypeOK RangeExists DumpExists
PROPERTIES OneKey Reading Determined RangeLaw SearchLaw
VIEW View
CHECK_DEADLOCK FALSE
