SPECIFICATION Spec
CONSTANTS
  LB = 4
  Defects = {}
INVARIANTS NothingOfRefused RowsAreTheServers OnlyFitting
CHECK_DEADLOCK FALSE
