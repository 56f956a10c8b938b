------------------------------ MODULE BoltPool ------------------------------
(***************************************************************************)
(* The connection pool: users (goroutines) open, use and close connections *)
(* of a pool of M slots, concurrently, and may close the pool.             *)
(*                                                                         *)
(* A slot is fresh (no physical connection), idle (with one nobody uses)   *)
(* or taken (by an open in progress or by a handle). A handle is what an   *)
(* open returned. Which slot an open takes, whether a connection that was  *)
(* given back is kept, and when a lost one gives its slot back before it   *)
(* is closed is left open.                                                 *)
(*                                                                         *)
(* Steps seen from outside: calls and returns of the users, what the       *)
(* server sees (Accept, Init*, Request, TxEnd, Eof). All others are hidden. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS M,        \* slots
          Users,
          MaxH,     \* handles in a behaviour (when generating)
          MaxP,     \* physical connections in a behaviour (when generating)
          Kinds,    \* what is done with connections (when generating)
          Rb,       \* what the server says to a ROLLBACK: "ok", "bad" (when generating)
          InitBad,  \* ways the server turns a connection away (when generating)
          Closing,  \* whether the pool gets closed (when generating)
          Kills,    \* whether the server goes away by itself (when generating)
          Gen,      \* calls are made one after the other, unless they block
          Defects   \* deliberate mistakes, to see the properties fail

VARIABLES slots,  \* 1..M -> [st, p]
          us,     \* Users -> [pc, op, h, s, p, res]
          hs,     \* handles: [st, s, p, tx, open, small, bad, rb]
          ps,     \* physical connections: [st, tx, eof]; st is new, ready, bad, or
                  \* lost (the server went away, which nobody has noticed so far)
          pool,   \* "open", "closed" (no new connections), "gone" (and Close has returned)
          down    \* the server cannot be reached

vars == <<slots, us, hs, ps, pool, down>>

Idle == [pc |-> "idle", op |-> "-", h |-> 0, s |-> 0, p |-> 0, res |-> "-"]

Init == /\ slots = [s \in 1..M |-> [st |-> "fresh", p |-> 0]]
        /\ us = [u \in Users |-> Idle]
        /\ hs = <<>>
        /\ ps = <<>>
        /\ pool = "open"
        /\ down = FALSE

Free == {s \in 1..M : slots[s].st # "taken"}
Held(h) == hs[h].st = "held"
HeldBy(p) == {h \in 1..Len(hs) : Held(h) /\ hs[h].p = p}
IdleIn(p) == {s \in 1..M : slots[s].st = "idle" /\ slots[s].p = p}
UsedBy(p) == {u \in Users : us[u].p = p /\ us[u].pc \in {"init", "got"}}
(* a physical connection that nobody will use again, which is to be closed *)
Doomed(p) == pool # "open" \/ (HeldBy(p) = {} /\ IdleIn(p) = {} /\ UsedBy(p) = {})

(* the user is inside the pool's Open with a slot *)
Opening == {"dial", "init", "got"}

-----------------------------------------------------------------------------
(* Opening *)

OpenCall(u) == /\ us[u].pc = "idle"
               /\ us' = [us EXCEPT ![u] = [Idle EXCEPT !.pc = "want", !.op = "open"]]
               /\ UNCHANGED <<slots, hs, ps, pool, down>>

(* hidden: take a slot, with its idle connection or to make one *)
Take(u, s) == /\ us[u].pc = "want" /\ pool = "open"
              /\ slots[s].st # "taken"
              /\ \/ /\ slots[s].st = "idle"
                    /\ us' = [us EXCEPT ![u].pc = "got", ![u].s = s, ![u].p = slots[s].p]
                 \/ /\ Gen => slots[s].st = "fresh"
                    /\ us' = [us EXCEPT ![u].pc = "dial", ![u].s = s, ![u].p = 0]
              /\ slots' = [slots EXCEPT ![s] = [st |-> "taken", p |-> 0]]
              /\ UNCHANGED <<hs, ps, pool, down>>

FreeSlot(s) == IF "keepslot" \in Defects THEN slots ELSE [slots EXCEPT ![s] = [st |-> "fresh", p |-> 0]]

Fail(u) == us' = [us EXCEPT ![u].pc = "err", ![u].p = 0]

(* hidden: cannot connect, or the pool has been closed meanwhile *)
DialFail(u) == /\ us[u].pc = "dial" /\ (down \/ pool # "open")
               /\ Fail(u) /\ slots' = FreeSlot(us[u].s)
               /\ UNCHANGED <<hs, ps, pool, down>>

Refuse(u) == /\ us[u].pc = "want" /\ pool # "open"
             /\ Fail(u)
             /\ UNCHANGED <<slots, hs, ps, pool, down>>

Accept(u) == /\ us[u].pc = "dial" /\ (Gen => ~down)
             /\ ps' = Append(ps, [st |-> "new", tx |-> 0, eof |-> FALSE])
             /\ us' = [us EXCEPT ![u].pc = "init", ![u].p = Len(ps) + 1]
             /\ UNCHANGED <<slots, hs, pool, down>>

InitOk(u) == /\ us[u].pc = "init"
             /\ ps' = [ps EXCEPT ![us[u].p].st = "ready"]
             /\ us' = [us EXCEPT ![u].pc = "got"]
             /\ UNCHANGED <<slots, hs, pool, down>>

(* refused, dropped, or not speaking the protocol *)
InitFail(u) == /\ us[u].pc = "init"
               /\ ps' = [ps EXCEPT ![us[u].p].st = "bad"]
               /\ Fail(u) /\ slots' = FreeSlot(us[u].s)
               /\ UNCHANGED <<hs, pool, down>>

(* an open that ends because the pool is closed under it *)
OpenAbort(u) == /\ us[u].pc \in {"init", "got"} /\ pool # "open"
                /\ Fail(u) /\ slots' = FreeSlot(us[u].s)
                /\ UNCHANGED <<hs, ps, pool, down>>

NewHandle(u) == [st |-> "held", by |-> u, s |-> us[u].s, p |-> us[u].p, tx |-> FALSE, open |-> "no", small |-> FALSE,
                 bad |-> ps[us[u].p].st # "lost" /\ (ps[us[u].p].st # "ready" \/ ps[us[u].p].eof), rb |-> "ok"]

OpenRet(u) == /\ us[u].pc = "got"
              /\ hs' = Append(hs, NewHandle(u))
              /\ us' = [us EXCEPT ![u] = Idle]
              /\ UNCHANGED <<slots, ps, pool, down>>

OpenErr(u) == /\ us[u].pc = "err"
              /\ us' = [us EXCEPT ![u] = Idle]
              /\ UNCHANGED <<slots, hs, ps, pool, down>>

(* Open blocks exactly while all slots are taken *)
Blocked(u) == us[u].pc = "want" /\ Free = {} /\ pool = "open"

-----------------------------------------------------------------------------
(* Using.  kind:                                                           *)
(*  exec, slow     a query whose row is checked; slow: answered late       *)
(*  rows           leave a result open; finish: read the rest of it        *)
(*  pipe, pfail, prepq, prep   leave a pipeline (pfail: in which a query   *)
(*                 failed), a prepared result, a statement open;           *)
(*  drain          close whatever is open                                  *)
(*  begin, commit  start a transaction, end it                             *)
(*  fail           the server reports a failure                            *)
(*  drop, junk, stall, resetfail, ackjunk                                  *)
(*                 the connection is lost, corrupted, or given up          *)
(*  small          small chunks and a short timeout are set                *)

Lossy == {"drop", "junk", "stall", "resetfail", "ackjunk"}
Opens == {"rows", "pipe", "pfail", "prepq"}
Ask == {"exec", "slow", "fail"} \cup Lossy \cup Opens
Local == {"prep", "small", "drain", "finish", "next"}

(* what the call has to return, before the server has seen anything *)
FirstRes(h, kind) ==
  LET x == hs[h] IN
  IF x.st = "closed" THEN IF kind \in {"small", "drain"} THEN "any" ELSE "err"
  ELSE IF kind \in Local
       THEN IF pool # "open" \/ x.bad THEN "any"
            ELSE CASE kind = "prep" -> IF x.open = "no" THEN "ok" ELSE "err"
                   [] kind = "finish" -> IF x.open = "rows" /\ ps[x.p].st # "lost" THEN "ok" ELSE "any"
                   [] OTHER -> "any"
  ELSE IF pool = "gone" \/ x.bad THEN "err"
  ELSE IF x.open # "no" /\ kind # "commit" THEN "err"
  ELSE IF kind = "begin" /\ x.tx THEN "err"
  ELSE IF kind = "commit" /\ ~x.tx THEN "err"
  ELSE "wait"

(* what it leaves open *)
NowOpen(h, kind) ==
  CASE kind = "drain" \/ (kind = "finish" /\ hs[h].open = "rows") -> "no"
    [] kind = "prep" /\ hs[h].open = "no" -> "stmt"
    [] OTHER -> hs[h].open

UseCall(u, h, kind) ==
  /\ us[u].pc = "idle" /\ h \in 1..Len(hs)
  /\ us' = [us EXCEPT ![u] = [Idle EXCEPT !.pc = "use", !.op = kind, !.h = h, !.res = FirstRes(h, kind)]]
  /\ IF Held(h) /\ pool # "gone"
     THEN hs' = [hs EXCEPT ![h].small = @ \/ kind = "small", ![h].open = NowOpen(h, kind)]
     ELSE UNCHANGED hs
  /\ UNCHANGED <<slots, ps, pool, down>>

(* the server gets the request of a use; rb: what it will say to a ROLLBACK *)
Request(u, rb) ==
  LET h == us[u].h  k == us[u].op  p == hs[h].p IN
  /\ us[u].pc = "use" /\ us[u].res = "wait" /\ k # "commit"
  /\ Held(h) /\ ps[p].st = "ready" /\ ~ps[p].eof
  /\ ps[p].tx # 0 => ps[p].tx = h
  /\ \E lost \in BOOLEAN :
        /\ (k \in Lossy \/ (k = "slow" /\ hs[h].small)) => lost
        /\ lost => k \in Lossy \/ hs[h].small   \* with a short timeout any answer may be late
        /\ us' = [us EXCEPT ![u].res = IF lost \/ k = "fail" THEN "err" ELSE "ok"]
        /\ hs' = [hs EXCEPT ![h].bad = @ \/ lost, ![h].tx = @ \/ k = "begin",
                            ![h].open = IF k = "rows" THEN "rows" ELSE IF k \in Opens THEN "stmt" ELSE @,
                            ![h].rb = IF k = "begin" THEN rb ELSE @]
        /\ ps' = [ps EXCEPT ![p].st = IF lost THEN "bad" ELSE @, ![p].tx = IF k = "begin" THEN h ELSE @]
  /\ UNCHANGED <<slots, pool, down>>

(* the server gets COMMIT or ROLLBACK, from a commit or from closing *)
TxEnd(u) ==
  LET h == us[u].h  p == hs[h].p IN
  /\ \/ us[u].pc = "use" /\ us[u].op = "commit" /\ us[u].res = "wait"
     \/ us[u].pc = "closing" /\ us[u].res = "wait"
  /\ Held(h) /\ hs[h].tx /\ ps[p].st = "ready" /\ ~ps[p].eof /\ ps[p].tx = h
  /\ IF us[u].op # "commit" /\ hs[h].rb = "bad"
     THEN /\ hs' = [hs EXCEPT ![h].bad = TRUE, ![h].tx = FALSE] /\ ps' = [ps EXCEPT ![p].st = "bad"]
          /\ us' = [us EXCEPT ![u].res = "any"]
     ELSE /\ hs' = [hs EXCEPT ![h].tx = FALSE, ![h].open = "no"] /\ ps' = [ps EXCEPT ![p].tx = 0]
          /\ us' = [us EXCEPT ![u].res = IF us[u].op = "commit" THEN "ok" ELSE "any"]
  /\ UNCHANGED <<slots, pool, down>>

(* hidden: a use ends in an error without the server having seen it *)
UseLost(u) == LET h == us[u].h IN
  /\ us[u].pc = "use" /\ us[u].res = "wait"
  /\ \/ pool # "open" \/ ~Held(h) \/ hs[h].bad \/ ps[hs[h].p].st # "ready" \/ ps[hs[h].p].eof
  /\ us' = [us EXCEPT ![u].res = "err"]
  /\ IF Held(h) /\ pool = "open" THEN hs' = [hs EXCEPT ![h].bad = TRUE] ELSE UNCHANGED hs
  /\ IF Held(h) /\ ps[hs[h].p].st = "lost" THEN ps' = [ps EXCEPT ![hs[h].p].st = "bad"] ELSE UNCHANGED ps
  /\ UNCHANGED <<slots, pool, down>>

(* res: "ok" or "err" *)
UseRet(u, res) ==
  /\ us[u].pc = "use" /\ res \in {"ok", "err"}
  /\ us[u].res # "wait"
  /\ \/ us[u].res \in {res, "any"}
     \/ pool # "open" /\ us[u].res = "ok"  \* its connection may have been closed under it
  /\ us' = [us EXCEPT ![u] = Idle]
  /\ UNCHANGED <<slots, hs, ps, pool, down>>

-----------------------------------------------------------------------------
(* Closing a connection *)

(* what nobody has noticed may be kept *)
Clean(h) == /\ ~hs[h].bad /\ ~hs[h].tx
            /\ ps[hs[h].p].st = "lost" \/ (ps[hs[h].p].st = "ready" /\ ~ps[hs[h].p].eof)
            /\ ps[hs[h].p].tx = 0

CloseCall(u, h) ==
  /\ us[u].pc = "idle" /\ h \in 1..Len(hs)
  /\ us' = [us EXCEPT ![u] = [Idle EXCEPT !.pc = "closing", !.op = "close", !.h = h,
                                          !.res = IF Held(h) THEN "wait" ELSE "any"]]
  /\ UNCHANGED <<slots, hs, ps, pool, down>>

(* the handle gives its slot back; keep: with its connection *)
GiveBack(h, keep) ==
  /\ keep => Clean(h) \/ "keepbroken" \in Defects
  /\ slots' = IF "keepslot" \in Defects /\ hs[h].bad THEN slots
              ELSE [slots EXCEPT ![hs[h].s] = IF keep THEN [st |-> "idle", p |-> hs[h].p] ELSE [st |-> "fresh", p |-> 0]]
  /\ hs' = [hs EXCEPT ![h].st = "closed"]

(* hidden *)
Return(u, keep) == LET h == us[u].h IN
  /\ us[u].pc = "closing" /\ us[u].res \in {"wait", "any"} /\ Held(h)
  /\ (us[u].res = "wait" /\ hs[h].tx /\ pool = "open") => hs[h].bad \/ ps[hs[h].p].st # "ready" \/ ps[hs[h].p].eof \/ ~keep
  /\ GiveBack(h, keep)
  /\ us' = [us EXCEPT ![u].res = "any"]
  /\ UNCHANGED <<ps, pool, down>>

(* hidden: a call that finds the connection lost may give its slot back at once *)
GiveUp(h) == /\ Held(h) /\ (hs[h].bad \/ ps[hs[h].p].st = "lost")
             /\ \E u \in Users : us[u].pc = "use" /\ us[u].h = h
             /\ GiveBack(h, FALSE)
             /\ UNCHANGED <<us, ps, pool, down>>

CloseRet(u) == /\ us[u].pc = "closing"
               /\ us[u].h # 0 => ~Held(us[u].h) \/ "keepslot" \in Defects
               /\ us' = [us EXCEPT ![u] = Idle]
               /\ UNCHANGED <<slots, hs, ps, pool, down>>

-----------------------------------------------------------------------------
(* Closing the pool *)

PoolCall(u) == /\ us[u].pc = "idle"
               /\ us' = [us EXCEPT ![u] = [Idle EXCEPT !.pc = "pclose", !.op = "pclose"]]
               /\ UNCHANGED <<slots, hs, ps, pool, down>>

PoolClose(u) == /\ us[u].pc = "pclose"
                /\ us' = [us EXCEPT ![u].pc = "pclosed"]
                /\ pool' = IF pool = "open" THEN "closed" ELSE pool
                /\ UNCHANGED <<slots, hs, ps, down>>

PoolRet(u) == /\ us[u].pc = "pclosed"
              /\ us' = [us EXCEPT ![u] = Idle]
              /\ pool' = "gone"
              /\ UNCHANGED <<slots, hs, ps, down>>

(* the server sees that the client closed the connection *)
MayEnd(p) == \/ Doomed(p) \/ IdleIn(p) # {}
             \/ ps[p].st = "lost"
             \/ \E h \in HeldBy(p) : hs[h].bad \/ (\E u \in Users : us[u].pc = "closing" /\ us[u].h = h)
             \/ \E u \in UsedBy(p) : us[u].pc = "got"

Eof(p) == /\ p \in 1..Len(ps) /\ ~ps[p].eof /\ MayEnd(p)
          /\ ps' = [ps EXCEPT ![p].eof = TRUE]
          /\ UNCHANGED <<slots, us, hs, pool, down>>

(* the server goes away from a connection that is not waiting for it *)
Kill(p) == /\ p \in 1..Len(ps)
           /\ ps' = [ps EXCEPT ![p].st = IF @ = "ready" THEN "lost" ELSE @]
           /\ UNCHANGED <<slots, us, hs, pool, down>>

(* the server becomes (un)reachable for new connections *)
Reach(d) == /\ down' = d /\ UNCHANGED <<slots, us, hs, ps, pool>>

(* every connection that is not to be used again has been closed *)
AllClosed == \A p \in 1..Len(ps) : Doomed(p) => ps[p].eof

-----------------------------------------------------------------------------
(* The whole system, for checking the design and generating behaviours      *)

HiddenOf(u) == \/ \E s \in 1..M : Take(u, s)
               \/ DialFail(u) \/ Refuse(u) \/ OpenAbort(u) \/ UseLost(u)
               \/ \E keep \in BOOLEAN : Return(u, keep)
               \/ PoolClose(u)

Hidden == (\E u \in Users : HiddenOf(u)) \/ (\E h \in 1..Len(hs) : GiveUp(h))

ServerOf(u) == \/ Len(ps) < MaxP /\ Accept(u)
               \/ InitOk(u)
               \/ InitBad # {} /\ InitFail(u)
               \/ \E rb \in Rb : Request(u, rb)
               \/ TxEnd(u)

Server == \/ (\E u \in Users : ServerOf(u))
          \/ Kills /\ (\E p \in 1..Len(ps) : ps[p].st = "ready" /\ Kill(p))
          \/ (\E p \in 1..Len(ps) : Doomed(p) /\ Eof(p))

RetsOf(u) == OpenRet(u) \/ OpenErr(u) \/ CloseRet(u) \/ PoolRet(u) \/ UseRet(u, "ok") \/ UseRet(u, "err")

Rets == \E u \in Users : RetsOf(u)

Holds(u, h) == hs[h].st = "held" /\ hs[h].by = u

(* users share what they know when calls are made one after the other (Gen); *)
(* else each works on its own, with one connection at a time                *)
Calls == \E u \in Users :
           \/ /\ Len(hs) + Cardinality({v \in Users : us[v].pc \in Opening \cup {"want", "err"}}) < MaxH
              /\ Gen \/ \A h \in 1..Len(hs) : ~Holds(u, h)
              /\ OpenCall(u)
           \/ \E h \in 1..Len(hs) : \E k \in Kinds : UseCall(u, h, k) /\ (Holds(u, h) \/ (Gen /\ hs[h].st = "held"))
           \/ \E h \in 1..Len(hs) : CloseCall(u, h) /\ (Holds(u, h) \/ (Gen /\ hs[h].st = "held"))
           \/ Closing /\ pool = "open" /\ PoolCall(u)

Quiet == \A u \in Users : us[u].pc = "idle" \/ Blocked(u)

Next == Hidden \/ Server \/ Rets \/ ((Gen => Quiet) /\ Calls)

Spec == Init /\ [][Next]_vars

(* everybody closes what they hold in the end *)
Live == /\ \A u \in Users : WF_vars(HiddenOf(u)) /\ WF_vars(ServerOf(u)) /\ WF_vars(RetsOf(u))
        /\ \A p \in 1..MaxP : WF_vars(p <= Len(ps) /\ Doomed(p) /\ Eof(p))
        /\ \A h \in 1..MaxH : SF_vars(h <= Len(hs) /\ hs[h].st = "held" /\ CloseCall(hs[h].by, h))

FairSpec == Spec /\ Live

-----------------------------------------------------------------------------
(* Properties *)

(* C09 *)
OneHolder == \A h, g \in 1..Len(hs) : (h # g /\ Held(h) /\ Held(g)) => hs[h].p # hs[g].p
OneSlot == \A s \in 1..M : slots[s].st = "taken" => Cardinality({h \in 1..Len(hs) : Held(h) /\ hs[h].s = s})
                                                    + Cardinality({u \in Users : us[u].pc \in Opening /\ us[u].s = s}) <= 1
AtMostM == Cardinality({p \in 1..Len(ps) : HeldBy(p) # {} \/ UsedBy(p) # {}}) <= M
(* C10: a slot is taken only by somebody *)
NoneLost == \A s \in 1..M : slots[s].st = "taken" =>
              \/ \E h \in 1..Len(hs) : Held(h) /\ hs[h].s = s
              \/ \E u \in Users : us[u].pc \in Opening /\ us[u].s = s
(* C11 *)
ReadyWhenIdle == \A s \in 1..M : slots[s].st = "idle" =>
                   \/ ps[slots[s].p].eof
                   \/ ps[slots[s].p].st \in {"ready", "lost"} /\ ps[slots[s].p].tx = 0
(* C10, C12 *)
EventuallyOpens == \A u \in Users : (us[u].pc = "want") ~> (us[u].pc # "want")
EventuallyClosed == (pool = "gone") ~> AllClosed
=============================================================================
