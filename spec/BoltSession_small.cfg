SPECIFICATION Spec
CONSTANTS
 Ops = {"exec","query","prep","squery","rnext","rclose","sclose","close"}
 MaxRec = 1
 PipeLens = {2}
 FailAt = {"RUN","TX","PULL","DISCARD"}
 FaultKinds = {"CUT"}
 FaultAt = {"RUN","PULL","DISCARD","ACK"}
 Pooled = FALSE
 Gen = TRUE
 Defects = {}
INVARIANTS CleanStream Correlated InOrder AckOnce Recovered TxKnown TxGone OneOpen TypeOK
PROPERTY NoWriteWhenBad
CHECK_DEADLOCK FALSE
