------------------------------ MODULE DataTrace ------------------------------
(* Trace validation for BoltData. A trace is [script, events]. *)
EXTENDS BoltData, TLC, Json, IOUtils

VARIABLES tr, l
tvars == <<vars, tr, l>>

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.events[l]

(* values as the harness writes them; a map is a sequence of pairs *)
RECURSIVE Norm(_)
Norm(v) ==
  CASE v.t = "list" -> List([j \in 1..Len(v.l) |-> <<Norm(v.l[j][1]), v.l[j][2]>>])
    [] v.t = "map" -> Map({<<v.m[j][1], Norm(v.m[j][2])>> : j \in 1..Len(v.m)})
    [] v.t = "struct" -> Struct(v.g, [j \in 1..Len(v.h) |-> Norm(v.h[j])])
    [] v.t = "bytes" -> [t |-> "bytes", b |-> v.b, back |-> Norm(v.back)]
    [] OTHER -> v
NormAll(s) == [j \in 1..Len(s) |-> Norm(s[j])]
NormArg(a) == IF a.k = "map" THEN [k |-> "map", m |-> Norm(a.v).m] ELSE a
NormQ(q) == [meta |-> Norm(q.meta), rows |-> [j \in 1..Len(q.rows) |-> NormAll(q.rows[j])], sum |-> Norm(q.sum)]
NormRes(r) == [ra |-> r.ra, lid |-> r.lid, meta |-> Norm(r.meta)]

TraceInit == /\ tr \in 1..Len(Traces) /\ l = 1
             /\ Start([j \in 1..Len(Traces[tr].script) |-> NormQ(Traces[tr].script[j])])

Step ==
  CASE Ev.e = "call" -> Call(Ev.k, Ev.sql, [j \in 1..Len(Ev.args) |-> [i \in 1..Len(Ev.args[j]) |-> NormArg(Ev.args[j][i])]])
    [] Ev.e = "req" -> IF Ev.p.t = "map" THEN Req(Norm(Ev.p).m) ELSE FALSE
    [] Ev.e = "err" -> RetErr
    [] Ev.e = "exec" -> RetExec([j \in 1..Len(Ev.res) |-> NormRes(Ev.res[j])])
    [] Ev.e = "all" -> RetAll([j \in 1..Len(Ev.rows) |-> NormAll(Ev.rows[j])], Norm(Ev.meta), Norm(Ev.sum))
    [] Ev.e = "rows" -> RetRows(NormAll(Ev.cols), IF Ev.meta.t = "-" THEN Script(1).meta ELSE Norm(Ev.meta))
    [] Ev.e = "row" -> NextRow(NormAll(Ev.d))
    [] Ev.e = "rowerr" -> NextErr
    [] Ev.e = "end" -> NextEnd(Norm(Ev.sum))
    [] Ev.e = "set" -> IF cur.set < got THEN NextSet(NormAll(Ev.cols), Norm(Ev.meta)) ELSE FALSE
    [] Ev.e = "close" -> CloseRows
    [] OTHER -> FALSE

DesignOK == NothingOfRefused /\ OnlyFitting

TraceNext == l <= Len(T.events) /\ Step /\ l' = l + 1 /\ tr' = tr /\ DesignOK'
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Note == IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)
Report == \A i \in 1..Len(Traces) :
            IF TLCGet(i) = Len(Traces[i].events) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
