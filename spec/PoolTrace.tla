------------------------------ MODULE PoolTrace ------------------------------
(***************************************************************************)
(* Trace validation for BoltPool: is what users of the real pool and the   *)
(* server saw a behaviour of BoltPool?  Hidden steps (taking a slot,       *)
(* giving it back, ...) are searched for by TLC.                           *)
(***************************************************************************)
EXTENDS BoltPool, Json, IOUtils

VARIABLES tr, l

Traces == JsonDeserialize(IOEnv.TRACES)

tvars == <<vars, tr, l>>

Ev == Traces[tr][l]

TraceInit == Init /\ tr \in 1..Len(Traces) /\ l = 1

(* when the pool is closed under a user, the server may still get to see what *)
(* was sent before                                                            *)
Late == /\ pool # "open"
        /\ Ev.e \in {"req", "begin", "txend", "initok", "initfail"}
        /\ Ev.e = "req" => hs[Ev.h].p = Ev.p
        /\ UNCHANGED vars

Visible ==
  CASE Ev.e = "opencall" -> OpenCall(Ev.u)
    [] Ev.e = "openret" -> OpenRet(Ev.u)
    [] Ev.e = "openerr" -> OpenErr(Ev.u)
    [] Ev.e = "usecall" -> UseCall(Ev.u, Ev.h, Ev.k)
    [] Ev.e = "useret" -> UseRet(Ev.u, Ev.r)
    [] Ev.e = "closecall" -> CloseCall(Ev.u, Ev.h)
    [] Ev.e = "closeret" -> Ev.r # "panic" /\ CloseRet(Ev.u)
    [] Ev.e = "poolcall" -> PoolCall(Ev.u)
    (* a lost connection may not be closed without an error *)
    [] Ev.e = "poolret" -> /\ Ev.r = "ok" \/ (Ev.r = "err" /\ \E p \in 1..Len(ps) : ps[p].st \in {"lost", "bad"} \/ ps[p].eof)
                           /\ PoolRet(Ev.u)
    [] Ev.e = "kill" -> Kill(Ev.p)
    [] Ev.e = "blocked" -> Blocked(Ev.u) /\ UNCHANGED vars
    [] Ev.e = "accept" -> Len(ps) + 1 = Ev.p /\ \E u \in Users : Accept(u)
    [] Ev.e = "initok" -> \E u \in Users : us[u].p = Ev.p /\ InitOk(u)
    [] Ev.e = "initfail" -> \E u \in Users : us[u].p = Ev.p /\ InitFail(u)
    [] Ev.e = "req" -> \E u \in Users : /\ us[u].pc = "use" /\ us[u].op = Ev.k /\ us[u].h = Ev.h
                                        /\ hs[Ev.h].p = Ev.p
                                        /\ Ev.small => hs[Ev.h].small
                                        /\ Request(u, "ok")
    [] Ev.e = "begin" -> \E u \in Users : /\ us[u].pc = "use" /\ us[u].op = "begin" /\ hs[us[u].h].p = Ev.p
                                          /\ Request(u, Ev.rb)
    [] Ev.e = "txend" -> \E u \in Users : /\ us[u].pc \in {"use", "closing"} /\ hs[us[u].h].p = Ev.p
                                          /\ (us[u].pc = "use") = (Ev.t = "COMMIT")
                                          /\ TxEnd(u)
    [] Ev.e = "eof" -> Eof(Ev.p)
    [] Ev.e = "reach" -> Reach(Ev.d)
    [] Ev.e = "end" -> AllClosed /\ UNCHANGED vars
    [] OTHER -> FALSE

DesignOK == OneHolder /\ OneSlot /\ AtMostM /\ NoneLost /\ ReadyWhenIdle

(* idle connections are told apart, fresh slots are not: take the first *)
FirstFresh(t) == \A q \in 1..M : slots[q].st = "fresh" => t <= q

(* Whether a connection that was given back is kept shows in whether it gets  *)
(* closed before the pool does                                                *)
Ends(p) == \E i \in 1..Len(Traces[tr]) :
             /\ Traces[tr][i].e = "eof" /\ Traces[tr][i].p = p
             /\ \A j \in 1..i : Traces[tr][j].e # "poolcall"

TraceHidden ==
  \/ \E u \in Users : \/ \E t \in 1..M : (slots[t].st = "fresh" => FirstFresh(t)) /\ Take(u, t)
                                           /\ IF slots[t].st = "fresh" \/ us'[u].pc = "got" THEN TRUE
                                              ELSE ps[slots[t].p].st # "ready" \/ Ends(slots[t].p)
                      \/ DialFail(u) \/ Refuse(u) \/ OpenAbort(u) \/ UseLost(u)
                      \/ \E keep \in BOOLEAN : /\ Return(u, keep)
                                               /\ keep \/ ~Clean(us[u].h) \/ Ends(hs[us[u].h].p)
                      \/ PoolClose(u)
  \/ \E h \in 1..Len(hs) : GiveUp(h)

TraceNext ==
  /\ l <= Len(Traces[tr])
  /\ \/ (Visible \/ Late) /\ l' = l + 1
     \/ TraceHidden /\ l' = l
  /\ tr' = tr
  /\ DesignOK'

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Note == IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Report == \A i \in 1..Len(Traces) :
            IF TLCGet(i) = Len(Traces[i]) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
