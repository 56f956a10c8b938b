SPECIFICATION TraceSpec
CONSTANTS
  Ops = {}
  MaxRec = 0
  PipeLens = {}
  FailAt = {}
  FaultKinds = {}
  FaultAt = {}
  Pooled = TRUE
  Gen = FALSE
  Defects = {}
CONSTRAINT Note
POSTCONDITION Report
CHECK_DEADLOCK FALSE
