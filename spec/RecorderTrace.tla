--------------------------- MODULE RecorderTrace ---------------------------
(* Trace validation for BoltRecorder. A trace of kind "raw" has the calls of a  *)
(* recording and of its replays; one of kind "driver" says whether the driver's *)
(* own calls had the results that they had when they were recorded.             *)
EXTENDS BoltRecorder, TLC, Json, IOUtils

VARIABLES tr, l
tvars == <<vars, tr, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.events[l]

TraceInit == tr \in 1..Len(Traces) /\ l = 1 /\ Start

Step ==
  CASE Ev.e = "rread" -> RecRead(Ev.n, Ev.b, Ev.err)
    [] Ev.e = "rwrite" -> RecWrite(Ev.b, Ev.k, Ev.err)
    [] Ev.e = "rclose" -> mode = "rec" /\ ~Ev.err /\ UNCHANGED vars
    [] Ev.e = "save" -> Save(Ev.sent, Ev.arrived, Ev.cut)
    [] Ev.e = "load" -> Load
    [] Ev.e = "pread" -> IF mode = "off" THEN OffCall ELSE PlayRead(Ev.n, Ev.b, Ev.err)
    [] Ev.e = "pwrite" -> IF mode = "off" THEN OffCall ELSE PlayWrite(Ev.n, Ev.k, Ev.err)
    [] Ev.e = "pclose" -> IF mode = "off" THEN OffClose ELSE PlayClose(Ev.err)
    \* a whole session of the driver
    [] Ev.e \in {"live", "unsaved"} -> UNCHANGED vars
    [] Ev.e = "again" -> Ev.same /\ UNCHANGED vars
    [] Ev.e = "other" -> ~Ev.bad /\ UNCHANGED vars
    [] OTHER -> FALSE

DesignOK == Faithful /\ Noticed /\ Transparent

TraceNext == l <= Len(T.events) /\ Step /\ l' = l + 1 /\ tr' = tr /\ DesignOK'
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Note == IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report == \A i \in 1..Len(Traces) :
            IF TLCGet(i) = Len(Traces[i].events) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
