SPECIFICATION Spec
CONSTANTS
  Defects = {}
  MaxItems = 4
  MaxCall = 2
INVARIANTS Faithful Noticed Transparent Represented Repeatable
CHECK_DEADLOCK FALSE
