--------------------------- MODULE BoltSessionSim ---------------------------
(* Long random behaviours of BoltSession, with large results and pipelines: *)
(* run by TLC's simulator. Each behaviour has a character w, which decides   *)
(* how long results and how likely failures, faults and closing are. The     *)
(* behaviour (h: calls and answers) is printed when it has had enough calls. *)
EXTENDS BoltSession

CONSTANTS MaxCalls

VARIABLES h, n, w

svars == <<vars, h, n, w>>

SimInit == Init /\ h = "" /\ n = 0 /\ w = [len |-> 0]

Character ==
  /\ w.len = 0
  /\ w' = [rec |-> RandomElement({1, 3, 12, 60}), fail |-> RandomElement({4, 15, 60}), fault |-> RandomElement({15, 80}),
           close |-> RandomElement({3, 12, 40}), stray |-> RandomElement({3, 10}), len |-> RandomElement(3..MaxCalls)]
  /\ UNCHANGED <<vars, h, n>>

OneIn(k) == RandomElement(1..k) = 1

(* calls that end things, and calls that are refused in the current state *)
Closing == {"close", "rclose", "orclose", "sclose", "osclose"}
Useless(op) ==
  \/ op \in {"execbad", "querybad", "queryallbad", "execpipebad", "qpipebad", "execpipecnt", "qpipecnt", "qpipe0", "execpipe0",
             "sexecbad", "squerybad", "sexecpipebad", "sqpipebad", "sexecpipecnt", "sqpipecnt", "otcommit", "otrollback", "osexec",
             "ornext"}
  \/ op \in {"exec", "query", "queryall", "execpipe", "qpipe", "prep", "ppipe"} /\ ConnGuard
  \/ op = "begin" /\ (ConnGuard \/ c.tx = "open")
  \/ op \in {"sexec", "squery", "sexecpipe", "sqpipe"} /\ (c.hS # "live" \/ RowsOpen)
  \/ op \in {"rnext", "rall", "pnext"} /\ (c.hR # "live" \/ c.rows.mode \in {"ended", "failed"})
  \/ op \in {"commit", "rollback"} /\ c.hT # "live"
  \/ c.closed /\ op # "reopen"

Wanted(op) == CASE op \in Closing -> OneIn(w.close)
                [] Useless(op) -> OneIn(w.stray * 3)
                [] op = "rnext" -> TRUE
                [] OTHER -> TRUE

(* (a random element is bound by a quantifier so that it is drawn once) *)
SimCall ==
  /\ n < w.len
  /\ \E sel \in {{op \in Ops : Has(op) /\ Wanted(op)}} :
     \E op \in {RandomElement(IF sel = {} THEN {o \in Ops : Has(o)} ELSE sel)} :
     \E k \in {RandomElement(Lens(op))} :
        /\ Call(op, 1 + 50 * n, k)
        /\ h' = h \o ",C " \o op \o " " \o ToString(k)
        /\ n' = n + 1

SimAnswer ==
  /\ GenAnswers # {}
  /\ LET all == GenAnswers
         rec == {a \in all : a.k = "REC"}
         good == {a \in all : a.k \in {"SUCC", "IGN"}}
         fail == {a \in all : a.k = "FAIL"}
         fault == all \ (rec \cup good \cup fail)
     IN \E from \in {IF fault # {} /\ OneIn(w.fault) THEN fault
                     ELSE IF fail # {} /\ OneIn(w.fail) THEN fail
                     ELSE IF rec # {} /\ (good = {} \/ ~OneIn(w.rec)) THEN rec
                     ELSE good} :
        \E a \in {RandomElement(from)} : \E keep \in {RandomElement({TRUE, FALSE})} :
          /\ SrvSend(a, keep)
          /\ h' = h \o ",A " \o a.k \o " 0"
  /\ n' = n

SimGo == /\ ~c.closed /\ ~c.bad /\ call = Idle /\ n < w.len
         /\ FaultKinds \cap {"GCUT", "GRST", "GDEAF"} # {}
         /\ OneIn(w.fault)
         /\ \E k \in {RandomElement(FaultKinds \cap {"GCUT", "GRST", "GDEAF"})} :
              SrvGo(k) /\ h' = h \o ",G " \o k \o " 0"
         /\ n' = n

SimStep == /\ w.len > 0
           /\ \/ SimCall
              \/ SimGo
              \/ ((CRecv \/ CLost \/ Ret \/ SrvRecv) /\ UNCHANGED <<h, n>>)
              \/ SimAnswer
           /\ UNCHANGED w

SimNext == Character \/ SimStep

SimSpec == SimInit /\ [][SimNext]_svars

(* a behaviour is over when its last call has returned *)
Over == (n > 0 /\ n = w.len /\ call = Idle) => PrintT("B " \o h)
=============================================================================
