SPECIFICATION Spec
CONSTANTS
 Ops = {"exec","query","queryall","execpipe","qpipe","prep","ppipe","begin","commit","rollback","sexec","squery","sexecpipe","sqpipe","sclose","rnext","rall","pnext","rclose","orclose","ornext","close","reopen","otcommit","osexec","osclose"}
 MaxRec = 1
 PipeLens = {2}
 FailAt = {"RUN","TX","PULL","DISCARD","ACK","RESET"}
 FaultKinds = {"CUT","GARB"}
 FaultAt = {"RUN","TX","PULL","DISCARD","ACK","RESET"}
 Pooled = TRUE
 Gen = TRUE
 Defects = {}
INVARIANTS CleanStream Correlated InOrder AckOnce Recovered TxKnown TxGone OneOpen TypeOK
PROPERTY NoWriteWhenBad
CHECK_DEADLOCK FALSE
