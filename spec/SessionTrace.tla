---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Trace validation: is every recorded execution of the real driver a      *)
(* behaviour of BoltSession?  Each trace is a sequence of events seen at   *)
(* the API boundary (call, ret) and at the server (recv, send).  The       *)
(* client's own steps (CRecv) are not visible and are taken eagerly.       *)
(*                                                                         *)
(* A trace is accepted when all its events can be consumed and the         *)
(* invariants of the design hold in every state on the way.                *)
(***************************************************************************)
EXTENDS BoltSession, Json, IOUtils

VARIABLES tr, l, old,
          wasbad  \* the connection was unusable when the current call began

Traces == JsonDeserialize(IOEnv.TRACES)

tvars == <<vars, tr, l, old, wasbad>>

Ev == Traces[tr][l]

MyPhys == Len(old) + 1

TraceInit == /\ Init
             /\ tr \in 1..Len(Traces)
             /\ l = 1
             /\ old = <<>>
             /\ wasbad = FALSE

Step == l' = l + 1 /\ tr' = tr

IsCall(e) == e.e = "call"

TCall == /\ Ev.e = "call"
         /\ IF Ev.op = "reopen"
            THEN /\ call = Idle /\ Has("reopen")
                 /\ c.bad => Ev.new
                 /\ c' = Fresh /\ call' = Returned("reopen", Res("none"))
                 /\ IF Ev.new
                    THEN /\ old' = Append(old, c2s) /\ s' = FreshSrv /\ c2s' = <<>> /\ s2c' = <<>>
                    ELSE UNCHANGED <<old, s, c2s, s2c>>
            ELSE /\ Call(Ev.op, Ev.q, Ev.n)
                 /\ UNCHANGED old
         /\ wasbad' = (c.bad /\ Ev.op # "reopen")
         /\ Step

(* in some scenarios queries have the same text (logged as -2) *)
SameText(x, ex) == x = ex \/ (ex = -2 /\ (x \div 2) % 2 = 0)

SameReq(m, e) == /\ m.k = e.k
                 /\ m.k = "RUN" => m.t = e.t /\ SameText(m.x, e.x) /\ m.q = e.q
                 /\ m.k \in {"PULL", "DISCARD"} => m.q = e.q

TRecv == /\ Ev.e = "recv"
         /\ IF Ev.p = MyPhys
            THEN /\ c2s # <<>> /\ SameReq(Head(c2s), Ev)
                 /\ SrvRecv
                 /\ UNCHANGED old
            ELSE /\ Ev.p < MyPhys
                 /\ old[Ev.p] # <<>> /\ SameReq(Head(old[Ev.p]), Ev)
                 /\ old' = [old EXCEPT ![Ev.p] = Tail(@)]
                 /\ UNCHANGED vars
         /\ UNCHANGED wasbad
         /\ Step

TSend == /\ Ev.e = "send"
         /\ Ev.p = MyPhys
         /\ LET a == CASE Ev.k = "REC" -> [k |-> "REC", q |-> Ev.q, i |-> Ev.i]
                       [] Ev.k = "SUCC" -> [k |-> "SUCC", q |-> s.cur.q, p |-> Ev.s]
                       [] Ev.k = "FAIL" -> [k |-> "FAIL", f |-> Ev.f]
                       [] OTHER -> [k |-> Ev.k]
            IN s.cur.k # "none" /\ SrvSend(a, TRUE)
         /\ UNCHANGED <<old, wasbad>>
         /\ Step

TGone == /\ Ev.e = "gone"
         /\ IF Ev.p = MyPhys THEN SrvGo(Ev.k) ELSE Ev.p < MyPhys /\ UNCHANGED vars
         /\ UNCHANGED <<old, wasbad>>
         /\ Step

ErrIn(e, r) ==
  CASE r = "refused" -> e.err \in {"other", "bad"}
    [] r = "anyerr" -> e.err \in {"other", "bad", "fail"}
    [] r = "any" -> e.err \in {"none", "other", "bad", "fail"}
    [] r = "failorbad" -> e.err \in {"fail", "bad"}
    [] r = "end" -> e.err \in {"eof", "none"}
    [] OTHER -> e.err = r

RowOps == {"rnext", "rall", "queryall", "pnext"}

(* messages without content (only sent in some scenarios) cannot carry tags *)
SameTag(a, b) == a = b \/ (Ev.bare /\ a = -2)
SameTags(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : SameTag(a[j], b[j])
SameRows(a, b) == /\ Len(a) = Len(b)
                  /\ \A j \in 1..Len(a) : a[j] = b[j] \/ (Ev.bare /\ a[j] = <<-2, 0>>)

Match(op, r, e) ==
  /\ ErrIn(e, r.err)
  /\ e.err = "fail" /\ r.f # 0 => SameTag(e.f, r.f)
  /\ r.err = "fail" => SameTag(e.f, r.f)
  /\ e.err \in {"none", "eof"} =>
       /\ op \in RowOps => SameRows(e.rows, r.rows)
       /\ (op \in {"query", "squery", "qpipe", "sqpipe", "queryall"} \/ r.next) => SameTag(e.cols, r.cols)
       /\ e.next = r.next
       /\ op \in {"exec", "sexec", "execpipe", "sexecpipe", "queryall", "rnext", "rall"} => (r.meta # <<>> /\ ~e.blind => SameTags(e.meta, r.meta))

TRet == /\ Ev.e = "ret"
        /\ call # Idle /\ call.m = "done"
        /\ Match(call.op, call.res, Ev)
        /\ ~(wasbad /\ Ev.slow)
        /\ Ret
        /\ UNCHANGED <<old, wasbad>>
        /\ Step

(* the network connections the client must have closed by now *)
TEnd == /\ Ev.e = "end"
        /\ call = Idle
        /\ Len(Ev.eof) >= MyPhys
        /\ \A p \in 1..Len(Ev.eof) : p # MyPhys => Ev.eof[p]
        /\ (c.closed /\ (~Pooled \/ c.bad)) => Ev.eof[MyPhys]
        /\ UNCHANGED <<vars, old, wasbad>>
        /\ Step

DesignOK == CleanStream /\ Correlated /\ InOrder /\ AckOnce /\ Recovered /\ TxKnown /\ TxGone /\ OneOpen

TraceNext ==
  /\ l <= Len(Traces[tr])
  /\ IF Waiting /\ s2c # <<>>
     THEN (CRecv \/ CLost) /\ UNCHANGED <<tr, l, old, wasbad>>
     ELSE \/ TCall \/ TRecv \/ TSend \/ TGone \/ TRet \/ TEnd
          \/ (CLost /\ UNCHANGED <<tr, l, old, wasbad>>)
  /\ DesignOK'

TraceSpec == TraceInit /\ [][TraceNext]_tvars

(* bookkeeping of how far each trace was followed *)
Note == IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Report == \A i \in 1..Len(Traces) :
            IF TLCGet(i) = Len(Traces[i]) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
