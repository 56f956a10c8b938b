------------------------------ MODULE OpenTrace ------------------------------
(***************************************************************************)
(* Trace validation for BoltOpen: is what the caller and the server saw a  *)
(* behaviour of BoltOpen, and did nobody wait too long or give up too      *)
(* early? A trace is [c, p, slack, events]; times are milliseconds.        *)
(***************************************************************************)
EXTENDS BoltOpen, TLC, Json, IOUtils

VARIABLES tr, l,
          tmo,   \* the timeout that applies
          since, \* when the call in progress started
          said,  \* when the server last sent something, or the call started
          moved  \* when anything last happened

tvars == <<vars, tr, l, tmo, since, said, moved>>

Traces == JsonDeserialize(IOEnv.TRACES)
T == Traces[tr]
Ev == T.events[l]
(* clocks are read a moment after things happen *)
Early == 30

TraceInit == /\ tr \in 1..Len(Traces) /\ l = 1
             /\ c = Traces[tr].c /\ p = Traces[tr].p
             /\ pc = "idle" /\ acc = 0 /\ first = "none" /\ tls = FALSE /\ pre = FALSE
             /\ ver = "-" /\ init = 0 /\ rep = "-" /\ eof = FALSE /\ use = NoUse
             /\ tmo = (IF Valid(Traces[tr].c) THEN Seconds(Traces[tr].c) * 1000 ELSE 0)
             /\ since = 0 /\ said = 0 /\ moved = 0

(* within the timeout of the last wait *)
InTime == Ev.t <= moved + tmo + T.slack
(* only silence is to blame: not before the timeout is over *)
Silence == \/ pc = "opening" /\ (p.tcp = "stall" \/ (p.ver \in Silent /\ pre) \/ (p.init \in Silent /\ init > 0))
              /\ Valid(c) /\ ~FilesBad(c)
           \/ pc = "open" /\ ~use.dead
Patient == Silence => Ev.t >= (IF pc = "opening" /\ p.tcp = "stall" THEN since ELSE said) + tmo - Early

Keep(x) == UNCHANGED x
Moved == /\ moved' = Ev.t /\ UNCHANGED <<tmo, since, said>>
Said == /\ moved' = Ev.t /\ said' = Ev.t /\ UNCHANGED <<tmo, since>>
Started == /\ moved' = Ev.t /\ said' = Ev.t /\ since' = Ev.t /\ UNCHANGED tmo

Step ==
  CASE Ev.e = "call" -> Call /\ Started
    [] Ev.e = "accept" -> Accept /\ Moved
    [] Ev.e = "first" -> First(Ev.k) /\ Moved
    [] Ev.e = "tlsdone" -> TLSDone(Ev.cc) /\ Said
    [] Ev.e = "preamble" -> GotPreamble(Ev.b) /\ Moved
    [] Ev.e = "ver" -> SayVer(Ev.k) /\ Said
    [] Ev.e = "init" -> GotInit(Ev.client, [scheme |-> Ev.scheme, principal |-> Ev.principal, credentials |-> Ev.credentials]) /\ Moved
    [] Ev.e = "rep" -> SayInit(Ev.k) /\ Said
    [] Ev.e = "eof" -> (Eof /\ Moved)
    [] Ev.e = "retok" -> RetOk /\ InTime /\ Started
    [] Ev.e = "reterr" -> RetErr(IF Ev.err = "fail" THEN "fail" ELSE "other") /\ Ev.err # "wrongfail" /\ InTime /\ Patient /\ Started
    [] Ev.e = "settimeout" -> /\ pc = "open" /\ use.k = "-" /\ tmo' = Ev.ms /\ UNCHANGED <<vars, since, said, moved>>
    (* the next user of a pooled connection: what was set on it is gone *)
    [] Ev.e = "again" -> /\ pc = "open" /\ use.k = "-" /\ ~use.dead /\ tmo' = Seconds(c) * 1000 /\ UNCHANGED <<vars, since, said, moved>>
    [] Ev.e = "usecall" -> UseCall(Ev.k) /\ Started
    [] Ev.e = "req" -> (pc \in {"open", "closed"}) /\ UNCHANGED vars /\ Moved
    [] Ev.e = "say" -> IF use.k = "-" THEN pc = "closed" /\ UNCHANGED vars /\ Said ELSE UseSay /\ Said
    [] Ev.e = "prog" -> pc \in {"open", "closed"} /\ UNCHANGED vars /\ Said
    [] Ev.e = "useok" -> UseRetOk /\ InTime /\ Started
    [] Ev.e = "useerr" -> /\ UseRetErr /\ Patient
                          /\ IF use.dead THEN Ev.t <= since + T.slack ELSE InTime
                          /\ Started
    [] Ev.e = "close" -> Close /\ Started
    [] Ev.e = "closed" -> /\ pc = "closed" /\ UNCHANGED vars /\ Started
                          /\ IF use.dead THEN Ev.t <= since + T.slack ELSE InTime
    [] Ev.e = "end" -> (acc > 0 => eof) /\ pc \in {"failed", "closed"} /\ UNCHANGED <<vars, tmo, since, said, moved>>
    [] OTHER -> FALSE

DesignOK == OpenOnlyAfterInit /\ InitOnlyAfterVersion /\ FailureIsDeserved /\ NoContact /\ NeverClear /\ Verified /\ OnlyWhenAsked /\ FilesUsable

TraceNext == l <= Len(T.events) /\ Step /\ l' = l + 1 /\ tr' = tr /\ DesignOK'

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Note == IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE

ASSUME \A i \in 1..Len(Traces) : TLCSet(i, 0)

Report == \A i \in 1..Len(Traces) :
            IF TLCGet(i) = Len(Traces[i].events) + 1 THEN TRUE
            ELSE PrintT(<<"REJECTED", i, TLCGet(i)>>)
=============================================================================
