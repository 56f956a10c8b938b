---------------------------- MODULE BoltSession ----------------------------
(***************************************************************************)
(* One connection of the driver: the API calls of a user (client side),    *)
(* the two message streams, and a Bolt v1 server with a free choice of     *)
(* every answer and of faults.                                             *)
(*                                                                         *)
(* Client steps : Call (one API call starts, its requests are written),    *)
(*                CRecv (the client takes one message off the stream,      *)
(*                possibly writing an acknowledgement or the next phase),  *)
(*                Ret (the call returns with the result in call.res).      *)
(* Server steps : SrvRecv (takes one request), SrvSend (writes one answer  *)
(*                or a fault).                                             *)
(*                                                                         *)
(* Every query has a tag q (its parameter) and a text tag x; every answer  *)
(* carries the tag of the query it answers, every failure its own tag f.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Ops,        \* API operations in this configuration
  MaxRec,     \* records of one result
  PipeLens,   \* lengths of pipelines
  FailAt,     \* requests the server may refuse: subset of {"RUN","TX","PULL","DISCARD","ACK","RESET"}
  FaultKinds, \* subset of {"CUT","CUTMID","STALL","STALLMID","GARB","ODDI","ODDR"} and, for what
              \* happens while nobody waits, {"GCUT","GRST","GDEAF"}
  FaultAt,    \* requests at which a fault may happen (same values as FailAt)
  Pooled,     \* the connection comes from a pool of size one
  Gen,        \* generating behaviours: the server acts only when waited for
  Defects     \* defects of the original code to switch on (vacuity runs), else {}

VARIABLES c, s, c2s, s2c, call

vars == <<c, s, c2s, s2c, call>>

NoStmt == [st |-> "none", pipe |-> FALSE, n |-> 0, x |-> 0]
NoRows == [st |-> "none", q |-> 0, i |-> 0, mode |-> "ended", rem |-> 0, own |-> FALSE, pipe |-> FALSE]

(* A user keeps its latest statement (hS), rows (hR) and transaction (hT)  *)
(* handles and the ones before (oS, oR, oT); "dead" ones are finished.     *)
Fresh == [closed |-> FALSE, bad |-> FALSE, stmt |-> NoStmt, rows |-> NoRows, tx |-> "none",
          hS |-> "none", hR |-> "none", hT |-> "none", oS |-> "none", oR |-> "none", oT |-> "none"]

FreshSrv == [cur |-> [k |-> "none"], i |-> 0, st |-> "READY", tx |-> FALSE, dead |-> FALSE, viol |-> FALSE, gone |-> "no"]

Idle == [op |-> "idle"]

Init == /\ c = Fresh /\ s = FreshSrv /\ c2s = <<>> /\ s2c = <<>> /\ call = Idle

-----------------------------------------------------------------------------
(* Messages *)
Run(x, q)  == [k |-> "RUN", t |-> "Q", x |-> x, q |-> q]
TxRun(t)   == [k |-> "RUN", t |-> t, x |-> 0, q |-> 0]
Pull(q)    == [k |-> "PULL", q |-> q]
Discard(q) == [k |-> "DISCARD", q |-> q]
AckMsg     == [k |-> "ACK", q |-> 0]
ResetMsg   == [k |-> "RESET", q |-> 0]

W(t, q) == [t |-> t, q |-> q]     \* the client waits for: S one success, R records then
                                  \* success, N one record or success

RunPull(x, q) == <<Run(x, q), Pull(q)>>

RECURSIVE PipeSend(_, _, _), PipeWant(_, _)
PipeSend(x, q, n) == IF n = 0 THEN <<>> ELSE RunPull(x, q) \o PipeSend(x + 1, q + 1, n - 1)
PipeWant(q, n)    == IF n = 0 THEN <<>> ELSE <<W("S", q), W("R", q)>> \o PipeWant(q + 1, n - 1)

Res(e) == [err |-> e, f |-> 0, rows |-> <<>>, cols |-> 0, meta |-> <<>>, next |-> FALSE]

Phase(id, send, want) == [id |-> id, send |-> send, want |-> want]

(* a call in progress *)
Active(op, q, n, ph) ==
  [op |-> op, q |-> q, n |-> n, m |-> "run", pid |-> ph[1].id, want |-> ph[1].want,
   ph |-> Tail(ph), f |-> 0, rows |-> <<>>, cols |-> 0, meta |-> <<>>, soft |-> FALSE, mis |-> FALSE,
   undo |-> FALSE, res |-> Res("none")]

Returned(op, r) ==
  [op |-> op, q |-> 0, n |-> 0, m |-> "done", pid |-> "none", want |-> <<>>, ph |-> <<>>, f |-> 0,
   rows |-> <<>>, cols |-> 0, meta |-> <<>>, soft |-> FALSE, mis |-> FALSE, undo |-> FALSE, res |-> r]

-----------------------------------------------------------------------------
(* Client: what is outstanding for the open rows, and closing them *)

RowsOpen == c.rows.st = "open"

ClosePhase ==
  IF ~RowsOpen \/ c.rows.mode \in {"ended", "failed"} THEN <<>>
  ELSE IF c.rows.mode = "unpulled" THEN <<Phase("close", <<Discard(c.rows.q)>>, <<W("S", c.rows.q)>>)>>
  ELSE IF "nodrain" \in Defects THEN <<>>
  ELSE <<Phase("close", <<>>, <<W("R", c.rows.q)>> \o PipeWant(c.rows.q + 1, c.rows.rem))>>

RowsGone(cc) == [cc EXCEPT !.rows = NoRows,
                           !.hR = IF @ = "live" THEN "dead" ELSE @,
                           !.oR = IF @ \in {"super", "live"} THEN "dead" ELSE @]
StmtGone(cc) == [RowsGone(cc) EXCEPT !.stmt = NoStmt, !.hS = IF @ = "live" THEN "dead" ELSE @]

(* after the rows are closed, statements that are not exposed go with them *)
AfterRowsClose(cc) == IF cc.rows.own THEN StmtGone(cc) ELSE RowsGone(cc)

NewRowsHandle(cc) == [cc EXCEPT !.oR = IF cc.hR = "none" THEN "none" ELSE "dead", !.hR = "live"]
NewStmtHandle(cc) == [cc EXCEPT !.oS = cc.hS, !.hS = "live"]
NewTxHandle(cc)   == [cc EXCEPT !.oT = IF cc.hT = "none" THEN "none" ELSE "dead", !.hT = "live", !.tx = "open"]

OpenRows(cc, q, mode, rem, own, pipe) ==
  NewRowsHandle([cc EXCEPT !.rows = [st |-> "open", q |-> q, i |-> 0, mode |-> mode, rem |-> rem, own |-> own, pipe |-> pipe]])

TxPhase(t) == Phase("tx", <<TxRun(t), Pull(0)>>, <<W("S", 0), W("S", 0)>>)

(* the connection is closed: for a pool of one the next holder gets the     *)
(* physical connection iff it is not bad                                    *)
ConnGone(cc) == [StmtGone(cc) EXCEPT !.closed = TRUE, !.tx = "none",
                                     !.hT = IF @ = "live" THEN "dead" ELSE @]

-----------------------------------------------------------------------------
(* How a call ends. status: "ok", "fail" (the server refused, f), "lost"    *)
(* (connection lost), "junk" (undecodable or unexpected answer), "bad" (the *)
(* connection was bad already), "drop" (the session could not be recovered) *)

ErrRes(status, f, soft) ==
  CASE status = "fail" -> [Res("fail") EXCEPT !.f = f]
    [] status = "lost" -> IF soft THEN [Res("failorbad") EXCEPT !.f = f] ELSE Res("bad")
    [] OTHER -> Res("anyerr")

End(a, cc, status) ==
  LET er == ErrRes(status, a.f, a.soft)
      okres == [Res("none") EXCEPT !.rows = a.rows, !.cols = a.cols, !.meta = a.meta]
      ret(c2, r) == <<c2, [a EXCEPT !.m = "done", !.want = <<>>, !.ph = <<>>, !.res = r]>>
      ok == status = "ok"
      (* closing reports what it meets; on a connection that is known to be  *)
      (* bad there is nothing to meet                                        *)
      cr == IF ok THEN Res("none") ELSE IF status = "bad" THEN Res("any") ELSE er
  IN
  CASE a.op \in {"exec", "queryall", "execpipe", "sexec", "sexecpipe"} -> ret(cc, IF ok THEN okres ELSE er)
    [] a.op = "query" ->
         IF ok THEN ret(OpenRows(cc, a.q, "pulled", 0, TRUE, FALSE), okres)
         ELSE ret(StmtGone(cc), er)
    [] a.op = "qpipe" ->
         IF ok THEN ret(OpenRows(cc, a.q, "pulled", a.n - 1, TRUE, TRUE), okres)
         ELSE ret(StmtGone(cc), er)
    [] a.op = "squery" -> IF ok THEN ret(OpenRows(cc, a.q, "unpulled", 0, FALSE, FALSE), okres) ELSE ret(cc, er)
    [] a.op = "sqpipe" -> IF ok THEN ret(OpenRows(cc, a.q, "pulled", a.n - 1, FALSE, TRUE), okres) ELSE ret(cc, er)
    [] a.op = "begin" ->
         IF a.pid = "undo" THEN ret(IF ok THEN [cc EXCEPT !.tx = "none"] ELSE [cc EXCEPT !.bad = TRUE, !.tx = "ending"],
                                    IF status \in {"ok", "fail"} THEN ErrRes("fail", a.f, a.soft) ELSE Res("anyerr"))
         ELSE IF ok THEN ret(IF "notx" \in Defects THEN cc ELSE NewTxHandle(cc), Res("none"))
         ELSE ret(cc, er)
    [] a.op \in {"commit", "rollback"} ->
         IF a.pid = "close" THEN ret(StmtGone(cc), er)
         ELSE IF ok THEN ret([cc EXCEPT !.tx = "none", !.hT = "dead"], Res("none"))
         ELSE ret(cc, er)
    [] a.op = "rnext" ->
         IF ~ok THEN ret([cc EXCEPT !.rows.mode = "failed"], er)
         ELSE IF a.rows # <<>> THEN ret([cc EXCEPT !.rows.i = @ + 1], okres)
         ELSE ret([cc EXCEPT !.rows.mode = "ended"], [okres EXCEPT !.err = "eof"])
    [] a.op = "rall" ->
         IF ~ok THEN ret([cc EXCEPT !.rows.mode = "failed"], er)
         ELSE ret([cc EXCEPT !.rows.mode = "ended"], okres)
    [] a.op = "pnext" ->
         IF ~ok THEN ret([cc EXCEPT !.rows.mode = "failed"], er)
         ELSE IF a.rows # <<>> THEN ret([cc EXCEPT !.rows.i = @ + 1], okres)
         ELSE IF a.pid = "next" THEN
              ret([cc EXCEPT !.rows.q = @ + 1, !.rows.i = 0, !.rows.rem = @ - 1, !.oR = "super"],
                  [Res("none") EXCEPT !.cols = a.cols, !.next = TRUE])
         ELSE ret([cc EXCEPT !.rows.mode = "ended"], Res("end"))
    [] a.op \in {"rclose", "orclose"} -> ret(AfterRowsClose(cc), cr)
    [] a.op = "sclose" -> ret(StmtGone(cc), cr)
    [] a.op = "close" ->
         ret(LET c2 == IF a.pid = "tx" /\ ~ok THEN [cc EXCEPT !.bad = TRUE] ELSE cc
             IN ConnGone(c2), IF ok /\ ~a.soft THEN Res("none")
                           \* the end may have come along with the last answer
                           ELSE IF s.gone # "no" THEN Res("any") ELSE Res("anyerr"))
    [] OTHER -> ret(cc, IF ok THEN okres ELSE er)

(* The current phase is over; go on with the next one or end the call.      *)
(* Gives <<client, call, requests to write>>.                               *)
PhaseEnd(a, cc, status) ==
  LET last == a.ph = <<>>
      go(aa, c2) == <<c2, [aa EXCEPT !.m = "run", !.pid = aa.ph[1].id, !.want = aa.ph[1].want, !.ph = Tail(aa.ph)],
                      aa.ph[1].send>>
      end(aa, c2, st) == LET e == End(aa, c2, st) IN <<e[1], e[2], <<>>>>
      alive == ~cc.bad /\ ~cc.closed
      c1 == IF a.pid = "close" /\ a.op # "close" THEN StmtGone(cc) ELSE cc
  IN
  IF status = "ok" THEN
       IF last THEN end(a, cc, "ok")
       ELSE go(a, IF a.ph[1].id = "tx" /\ a.op \in {"commit", "rollback", "close"} THEN [c1 EXCEPT !.tx = "ending"] ELSE c1)
  ELSE IF a.op = "close" /\ a.pid = "close" /\ ~last /\ alive THEN go([a EXCEPT !.soft = TRUE, !.f = 0], [c1 EXCEPT !.tx = "ending"])
  ELSE IF a.op = "begin" /\ a.pid = "tx" /\ status = "fail" /\ a.undo /\ alive THEN
       go([a EXCEPT !.ph = <<[TxPhase("ROLLBACK") EXCEPT !.id = "undo"]>>],
          [cc EXCEPT !.tx = "ending", !.hT = IF @ = "live" THEN "dead" ELSE @])
  ELSE end(a, cc, status)

-----------------------------------------------------------------------------
(* Starting a call *)

Busy == c.stmt.st = "open"
Refused == Res("refused")

RetNow(op, cc, r) == c' = cc /\ call' = Returned(op, r) /\ UNCHANGED <<s, c2s, s2c>>

(* start the phases; on a bad connection nothing is written *)
Start(op, q, n, cc, ph) ==
  IF ph = <<>> THEN LET e == End([Returned(op, Res("none")) EXCEPT !.q = q, !.n = n, !.pid = "none"], cc, "ok")
                    IN c' = e[1] /\ call' = e[2] /\ UNCHANGED <<s, c2s, s2c>>
  ELSE IF cc.bad THEN LET e == End(Active(op, q, n, ph), cc, "bad")
                      IN c' = e[1] /\ call' = e[2] /\ UNCHANGED <<s, c2s, s2c>>
  ELSE /\ c' = cc
       /\ call' = Active(op, q, n, ph)
       /\ c2s' = c2s \o ph[1].send
       /\ UNCHANGED <<s, s2c>>

StartStmt(q, n, cc) == cc

ConnGuard == Busy \/ c.closed

HiddenStmt(pipe, n, q) == [st |-> "open", pipe |-> pipe, n |-> n, x |-> q]

(* op, tag q of the first query, number n of queries of a pipeline *)
CallBody(op, q, n) ==
  CASE op = "exec" -> IF ConnGuard THEN RetNow(op, c, Refused)
                      ELSE Start(op, q, n, c, <<Phase("main", RunPull(q, q), <<W("S", q), W("R", q)>>)>>)
    [] op = "queryall" -> IF ConnGuard THEN RetNow(op, c, Refused)
                      ELSE Start(op, q, n, c, <<Phase("main", RunPull(q, q), <<W("S", q), W("R", q)>>)>>)
    [] op = "query" -> IF ConnGuard THEN RetNow(op, c, Refused)
                      ELSE Start(op, q, n, [c EXCEPT !.stmt = HiddenStmt(FALSE, 1, q)],
                                 <<Phase("main", RunPull(q, q), <<W("S", q)>>)>>)
    [] op = "execpipe" -> IF ConnGuard THEN RetNow(op, c, Refused)
                      ELSE Start(op, q, n, c, <<Phase("main", PipeSend(q, q, n), PipeWant(q, n))>>)
    [] op = "qpipe" -> IF ConnGuard THEN RetNow(op, c, Refused)
                      ELSE Start(op, q, n, [c EXCEPT !.stmt = HiddenStmt(TRUE, n, q)],
                                 <<Phase("main", PipeSend(q, q, n), <<W("S", q)>>)>>)
    (* calls that are refused for their arguments: nothing is written *)
    [] op \in {"execbad", "querybad", "queryallbad", "execpipebad", "qpipebad", "execpipecnt", "qpipecnt", "qpipe0",
               "sexecbad", "squerybad", "sexecpipebad", "sqpipebad", "sexecpipecnt", "sqpipecnt"} -> RetNow(op, c, Refused)
    [] op = "execpipe0" -> IF ConnGuard THEN RetNow(op, c, Refused)
                           ELSE IF c.bad THEN RetNow(op, c, Res("any")) ELSE RetNow(op, c, Res("none"))
    [] op \in {"prep", "ppipe"} ->
         IF ConnGuard THEN RetNow(op, c, Refused)
         ELSE \/ RetNow(op, NewStmtHandle([c EXCEPT !.stmt = [st |-> "open", pipe |-> op = "ppipe", n |-> n, x |-> q]]), Res("none"))
              \/ c.bad /\ ~Gen /\ RetNow(op, c, Refused)
    [] op = "begin" ->
         IF ConnGuard \/ c.tx = "open" THEN RetNow(op, c, Refused)
         ELSE \/ Start(op, q, n, c, <<TxPhase("BEGIN")>>)
              \/ ~Gen /\ c.tx = "ending" /\ RetNow(op, c, Refused)
    [] op \in {"commit", "rollback"} ->
         IF c.hT # "live" \/ c.closed THEN RetNow(op, c, Refused)
         ELSE LET cp == ClosePhase
                  t == IF op = "commit" THEN "COMMIT" ELSE "ROLLBACK"
              IN Start(op, q, n, IF cp = <<>> THEN [StmtGone(c) EXCEPT !.tx = "ending"] ELSE c, cp \o <<TxPhase(t)>>)
    [] op \in {"otcommit", "otrollback"} -> RetNow(op, c, Refused)
    (* statements *)
    [] op \in {"sexec", "squery", "sexecpipe", "sqpipe"} ->
         IF c.hS # "live" \/ RowsOpen THEN RetNow(op, c, Refused)
         ELSE CASE op = "sexec" -> Start(op, q, n, c, <<Phase("main", RunPull(c.stmt.x, q), <<W("S", q), W("R", q)>>)>>)
                [] op = "squery" -> Start(op, q, n, c, <<Phase("main", <<Run(c.stmt.x, q)>>, <<W("S", q)>>)>>)
                [] op = "sexecpipe" -> Start(op, q, n, c, <<Phase("main", PipeSend(c.stmt.x, q, n), PipeWant(q, n))>>)
                [] OTHER -> Start(op, q, n, c, <<Phase("main", PipeSend(c.stmt.x, q, n), <<W("S", q)>>)>>)
    [] op = "osexec" -> RetNow(op, c, Refused)
    [] op = "osclose" -> RetNow(op, c, Res("none"))
    [] op = "sclose" -> IF c.hS # "live" THEN RetNow(op, c, Res("none"))
                        ELSE Start(op, q, n, c, ClosePhase)
    (* rows *)
    [] op \in {"rnext", "pnext"} ->
         IF c.hR # "live" THEN RetNow(op, c, Refused)
         ELSE IF c.rows.mode = "ended" THEN RetNow(op, c, Res(IF op = "rnext" THEN "eof" ELSE "end"))
         ELSE IF c.rows.mode = "failed" THEN RetNow(op, c, Res("anyerr"))
         ELSE Start(op, q, n, [c EXCEPT !.rows.mode = "pulled"],
                    <<Phase("main", IF c.rows.mode = "unpulled" THEN <<Pull(c.rows.q)>> ELSE <<>>, <<W("N", c.rows.q)>>)>>)
    [] op = "rall" ->
         IF c.hR # "live" THEN RetNow(op, c, Refused)
         ELSE IF c.rows.mode = "ended" THEN RetNow(op, c, Res("none"))
         ELSE IF c.rows.mode = "failed" THEN RetNow(op, c, Res("anyerr"))
         ELSE Start(op, q, n, [c EXCEPT !.rows.mode = "pulled"],
                    <<Phase("main", IF c.rows.mode = "unpulled" THEN <<Pull(c.rows.q)>> ELSE <<>>, <<W("R", c.rows.q)>>)>>)
    [] op = "rclose" -> IF c.hR # "live" THEN RetNow(op, c, Res("none")) ELSE Start(op, q, n, c, ClosePhase)
    (* an earlier rows handle: finished, or superseded in its pipeline *)
    [] op = "ornext" -> RetNow(op, c, Refused)
    [] op = "orclose" -> IF c.oR = "super" /\ c.hR = "live" THEN Start(op, q, n, c, ClosePhase)
                         ELSE RetNow(op, c, Res("none"))
    (* the connection *)
    [] op = "close" ->
         IF c.closed THEN RetNow(op, c, Res("none"))
         ELSE LET cp == ClosePhase
                  tp == IF c.tx # "none" /\ ~c.bad THEN <<TxPhase("ROLLBACK")>> ELSE <<>>
              IN IF c.bad THEN RetNow(op, ConnGone(c), Res("any"))
                 ELSE Start(op, q, n, IF cp = <<>> /\ tp # <<>> THEN [StmtGone(c) EXCEPT !.tx = "ending"] ELSE c, cp \o tp)
    (* pool of one: the next holder *)
    [] op = "reopen" ->
         IF c.bad THEN c' = Fresh /\ s' = FreshSrv /\ c2s' = <<>> /\ s2c' = <<>> /\ call' = Returned(op, Res("none"))
         ELSE c' = Fresh /\ call' = Returned(op, Res("none")) /\ UNCHANGED <<s, c2s, s2c>>
    [] OTHER -> FALSE

PipeOps == {"execpipe", "qpipe", "ppipe", "execpipebad", "qpipebad", "execpipecnt", "qpipecnt"}
StmtOps == {"sexec", "squery", "sexecpipe", "sqpipe", "sclose", "sexecbad", "squerybad", "sexecpipebad", "sqpipebad",
            "sexecpipecnt", "sqpipecnt"}

(* which calls make sense for the handles the user has *)
Has(op) ==
  /\ op \in {"sexec", "squery", "sexecbad", "squerybad"} => c.hS # "none" /\ (c.hS = "live" => ~c.stmt.pipe)
  /\ op \in {"sexecpipe", "sqpipe", "sexecpipebad", "sqpipebad", "sexecpipecnt", "sqpipecnt"} => c.hS = "live" /\ c.stmt.pipe
  /\ op = "sclose" => c.hS # "none"
  /\ op \in {"osexec", "osclose"} => c.oS = "dead"
  /\ op \in {"rnext", "rall"} => c.hR # "none" /\ (c.hR = "live" => ~c.rows.pipe)
  /\ op = "pnext" => c.hR # "none" /\ (c.hR = "live" => c.rows.pipe)
  /\ op = "rclose" => c.hR # "none"
  /\ op \in {"ornext", "orclose"} => c.oR # "none"
  /\ op \in {"commit", "rollback"} => c.hT # "none"
  /\ op \in {"otcommit", "otrollback"} => c.oT # "none"
  /\ op = "reopen" => Pooled /\ c.closed

(* number of queries of a call *)
Lens(op) == IF op \in {"execpipe", "qpipe", "ppipe", "execpipebad", "qpipebad", "execpipecnt", "qpipecnt"} THEN PipeLens
            ELSE IF op \in {"sexecpipe", "sqpipe", "sexecpipebad", "sqpipebad", "sexecpipecnt", "sqpipecnt"} THEN {c.stmt.n}
            ELSE {1}

Call(op, q, n) == /\ call = Idle
                  /\ Has(op)
                  /\ CallBody(op, q, n)

-----------------------------------------------------------------------------
(* The client takes one message off the stream *)

Waiting == call # Idle /\ call.m \in {"run", "ack", "reset"}

Apply(r, c2) == c' = r[1] /\ call' = r[2] /\ c2s' = c2 \o r[3] /\ UNCHANGED s

CRecv ==
  /\ Waiting
  /\ s2c # <<>>
  /\ s2c' = Tail(s2c)
  /\ LET m == Head(s2c)
         a == call
         w == a.want[1]
         lost == m.k \in {"CUT", "CUTMID", "STALL", "STALLMID"}
         odd == m.k \in {"ODDI", "ODDR"}
         cbad == [c EXCEPT !.bad = TRUE]
         next(aa) == IF Tail(aa.want) = <<>> THEN PhaseEnd(aa, c, "ok")
                     ELSE <<c, [aa EXCEPT !.want = Tail(@)], <<>>>>
     IN
     CASE lost -> Apply(PhaseEnd([a EXCEPT !.soft = (a.m # "run") \/ @], cbad, "lost"), c2s)
       [] m.k = "GARB" \/ odd ->
            Apply(PhaseEnd(a, IF odd /\ a.m # "run" THEN ConnGone(cbad) ELSE cbad, "junk"), c2s)
       [] a.m = "run" /\ m.k = "FAIL" ->
            IF "noack" \in Defects THEN Apply(PhaseEnd([a EXCEPT !.f = m.f], c, "fail"), c2s)
            ELSE Apply(<<c, [a EXCEPT !.m = "ack", !.f = IF a.pid = "undo" THEN @ ELSE m.f,
                                      !.undo = a.op = "begin" /\ a.pid = "tx" /\ Len(a.want) = 1], <<AckMsg>>>>, c2s)
       [] a.m = "run" /\ m.k = "REC" /\ w.t \in {"R", "N"} ->
            LET aa == [a EXCEPT !.rows = IF a.op \in {"rnext", "pnext", "rall", "queryall"} THEN Append(@, <<m.q, m.i>>) ELSE @,
                                !.mis = @ \/ m.q # w.q]
            IN IF w.t = "N" THEN Apply(PhaseEnd([aa EXCEPT !.want = <<>>], c, "ok"), c2s)
               ELSE Apply(<<c, aa, <<>>>>, c2s)
       [] a.m = "run" /\ m.k = "SUCC" ->
            LET aa == [a EXCEPT !.mis = @ \/ m.q # w.q \/ m.p # (IF w.t = "S" THEN m.p ELSE "end")]
                \* column metadata comes with the success of a RUN, the summary with that of a PULL
                bb == IF w.t = "S" THEN [aa EXCEPT !.cols = m.q]
                      ELSE [aa EXCEPT !.meta = Append(@, m.q)]
            IN IF w.t = "N" /\ a.op = "pnext" /\ c.rows.rem > 0
               THEN Apply(<<c, [bb EXCEPT !.pid = "next", !.want = <<W("S", w.q + 1)>>], <<>>>>, c2s)
               ELSE Apply(next(bb), c2s)
       [] a.m \in {"ack", "reset"} /\ m.k = "IGN" -> Apply(<<c, a, <<>>>>, c2s)
       [] a.m \in {"ack", "reset"} /\ m.k = "SUCC" -> Apply(PhaseEnd(a, c, "fail"), c2s)
       [] a.m = "ack" /\ m.k = "FAIL" -> Apply(<<c, [a EXCEPT !.m = "reset"], <<ResetMsg>>>>, c2s)
       [] a.m = "reset" /\ m.k = "FAIL" -> Apply(PhaseEnd(a, ConnGone(cbad), "drop"), c2s)
       [] OTHER -> Apply(PhaseEnd([a EXCEPT !.mis = TRUE], cbad, "junk"), c2s)

(* the server went away while the client was idle: what it had sent still    *)
(* arrives, unless it reset the connection, and then nothing                *)
CLost ==
  /\ Waiting
  /\ s.gone # "no"
  /\ s2c = <<>> \/ s.gone = "GRST"
  /\ Apply(PhaseEnd([call EXCEPT !.soft = (call.m # "run") \/ @], [c EXCEPT !.bad = TRUE], "lost"), c2s)
  /\ UNCHANGED s2c

(* the call returns to the user *)
Ret == /\ call # Idle /\ call.m = "done"
       /\ call' = Idle
       /\ UNCHANGED <<c, s, c2s, s2c>>

-----------------------------------------------------------------------------
(* Server *)

ReqKind(m) == IF m.k = "RUN" /\ m.t # "Q" THEN "TX" ELSE m.k

SrvRecv ==
  /\ c2s # <<>> /\ s.cur.k = "none" /\ s.gone = "no"
  /\ Gen => (Waiting /\ s2c = <<>>)
  /\ LET m == Head(c2s) IN
       /\ c2s' = Tail(c2s)
       /\ s' = IF s.dead THEN s
               ELSE [s EXCEPT !.cur = m, !.i = 0,
                      !.viol = @ \/ (m.k = "ACK" /\ s.st # "FAILED") \/ (m.k = "RESET" /\ s.st # "NACKED")
                                 \/ (m.k \in {"PULL", "DISCARD"} /\ s.st = "READY")
                                 \/ (m.k = "RUN" /\ s.st = "STREAMING")]
  /\ UNCHANGED <<c, s2c, call>>

(* the server goes away while the client is idle *)
SrvGo(k) == /\ call = Idle /\ s.gone = "no" /\ ~s.dead /\ s.cur.k = "none"
            /\ s' = [s EXCEPT !.gone = k]
            /\ UNCHANGED <<c, c2s, s2c, call>>

Failed == s.st \in {"FAILED", "NACKED"}

(* one answer a to the current request *)
AnswerOk(a) ==
  LET r == s.cur IN
  /\ r.k # "none"
  /\ CASE a.k = "IGN" -> Failed /\ r.k \in {"RUN", "PULL", "DISCARD"}
       [] a.k = "REC" -> ~Failed /\ r.k = "PULL" /\ a.q = r.q /\ a.i = s.i + 1
       [] a.k = "SUCC" -> /\ (Failed => r.k \in {"ACK", "RESET"}) /\ a.q = r.q
                          /\ a.p = IF r.k \in {"PULL", "DISCARD"} THEN "end" ELSE "run"
       [] a.k = "FAIL" -> Failed => r.k \in {"ACK", "RESET"}
       [] OTHER -> a.k \in {"CUT", "CUTMID", "STALL", "STALLMID", "GARB", "ODDI", "ODDR"}

(* keep: whether a transaction survives a refused COMMIT or ROLLBACK *)
SrvSend(a, keep) ==
  /\ AnswerOk(a)
  /\ s2c' = Append(s2c, a)
  /\ LET r == s.cur
         none == [k |-> "none"]
     IN s' =
       CASE a.k = "REC" -> [s EXCEPT !.i = @ + 1]
         [] a.k = "IGN" -> [s EXCEPT !.cur = none]
         [] a.k = "SUCC" -> [s EXCEPT !.cur = none, !.i = 0,
                !.st = IF r.k = "RUN" THEN "STREAMING" ELSE "READY",
                !.tx = IF r.k = "RUN" /\ r.t = "BEGIN" THEN TRUE
                       ELSE IF r.k = "RUN" /\ r.t \in {"COMMIT", "ROLLBACK"} THEN FALSE
                       ELSE IF r.k = "RESET" THEN FALSE ELSE @]
         [] a.k = "FAIL" -> [s EXCEPT !.cur = none, !.i = 0, !.st = IF r.k = "ACK" THEN "NACKED" ELSE "FAILED",
                !.tx = IF r.k = "RUN" /\ r.t \in {"COMMIT", "ROLLBACK"} THEN (@ /\ keep) ELSE @]
         [] OTHER -> [s EXCEPT !.cur = none, !.i = 0, !.dead = TRUE]
  /\ UNCHANGED <<c, c2s, call>>

-----------------------------------------------------------------------------
(* Generation: every choice, with tags kept small *)

MaxLive == IF RowsOpen THEN c.rows.q + c.rows.rem ELSE 0
FreshTag == MaxLive + 1

GenAnswers ==
  LET r == s.cur
      kind == ReqKind(r)
      ok == IF Failed /\ r.k \in {"RUN", "PULL", "DISCARD"} THEN {[k |-> "IGN"]}
            ELSE {[k |-> "SUCC", q |-> r.q, p |-> IF r.k \in {"PULL", "DISCARD"} THEN "end" ELSE "run"]}
                 \cup (IF kind \in FailAt THEN {[k |-> "FAIL", f |-> 1]} ELSE {})
                 \cup (IF r.k = "PULL" /\ r.q > 0 /\ s.i < MaxRec THEN {[k |-> "REC", q |-> r.q, i |-> s.i + 1]} ELSE {})
      fault == IF kind \in FaultAt
               THEN {[k |-> x] : x \in FaultKinds \cap ({"CUT", "CUTMID", "STALL", "STALLMID", "GARB"}
                                  \cup (IF Failed THEN {} ELSE IF r.k \in {"RUN", "DISCARD"} THEN {"ODDI", "ODDR"} ELSE IF r.k = "PULL" THEN {"ODDI"} ELSE {})
                                  \cup (IF r.k \in {"ACK", "RESET"} THEN {"ODDR"} ELSE {}))}
               ELSE {}
  IN IF r.k = "none" THEN {} ELSE ok \cup fault

Keeps(a) == IF a.k = "FAIL" /\ s.cur.k = "RUN" /\ s.cur.t \in {"COMMIT", "ROLLBACK"} THEN {TRUE, FALSE} ELSE {TRUE}

Next == \/ \E op \in Ops : \E n \in Lens(op) : Call(op, FreshTag, n)
        \/ CRecv
        \/ CLost
        \/ Ret
        \/ SrvRecv
        \/ (~c.closed /\ ~c.bad /\ \E k \in FaultKinds \cap {"GCUT", "GRST", "GDEAF"} : SrvGo(k))
        \/ \E a \in GenAnswers : \E k \in Keeps(a) : SrvSend(a, k)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design *)

IdleNow == call = Idle

(* C01: nothing is pending on a usable connection without an open result *)
CleanStream == (IdleNow /\ ~c.bad /\ ~c.closed /\ ~(RowsOpen /\ c.rows.mode = "pulled"))
                  => (c2s = <<>> /\ s2c = <<>> /\ s.cur.k = "none")

(* C01: whatever the client takes answers what it asked *)
Correlated == IdleNow \/ ~call.mis

(* C02: rows come in order *)
InOrder == (call # Idle /\ call.op \in {"rall", "queryall"}) =>
              \A j \in 1..Len(call.rows) : call.rows[j][2] = call.rows[1][2] + j - 1

(* C03: failures are acknowledged exactly when there is one *)
AckOnce == ~s.viol

(* C03: on a usable idle connection the server is ready for the next request *)
Recovered == (IdleNow /\ ~c.bad /\ ~c.closed /\ ~(RowsOpen /\ c.rows.mode = "pulled")) =>
                s.st = (IF RowsOpen /\ c.rows.mode = "unpulled" THEN "STREAMING" ELSE "READY")

(* C05: nothing is written to a bad connection *)
NoWriteWhenBad == [][c.bad /\ c'.bad => Len(c2s') <= Len(c2s)]_vars

(* C06: the server never is in a transaction the client does not know of *)
TxKnown == (IdleNow /\ ~c.bad /\ ~c.closed /\ s.tx) => c.tx # "none"
TxGone  == (IdleNow /\ c.closed /\ ~c.bad /\ Pooled) => ~s.tx /\ s.st = "READY" /\ c2s = <<>> /\ s2c = <<>>

(* C07: rows only with their statement *)
OneOpen == (IdleNow /\ RowsOpen) => c.stmt.st = "open"

TypeOK == /\ c.tx \in {"none", "open", "ending"}
          /\ c.rows.mode \in {"unpulled", "pulled", "ended", "failed"}
          /\ s.gone \in {"no", "GCUT", "GRST", "GDEAF"}

=============================================================================
