SPECIFICATION Spec
CONSTANTS
  M = 1
  Users = {1, 2}
  MaxH = 2
  MaxP = 2
  Kinds = {"exec", "begin", "drop"}
  Rb = {"ok", "bad"}
  InitBad = {"refuse"}
  Closing = TRUE
  Gen = FALSE
  Defects = {}
INVARIANTS OneHolder OneSlot AtMostM NoneLost ReadyWhenIdle
CHECK_DEADLOCK FALSE
