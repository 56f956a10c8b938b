------------------------------ MODULE BoltOpen ------------------------------
(***************************************************************************)
(* Opening a connection: what a connection string asks for, the network,   *)
(* TLS, the Bolt handshake and the initialization; then calls on the open  *)
(* connection, of which only the waiting is looked at here.                *)
(*                                                                         *)
(* An input c is a connection string in its parts:                         *)
(*   broken (it is no URL), scheme, cred ("none", "full", "nopass"), user, *)
(*   pass (hexadecimal), timeout [has, v] (v: its characters), tls,        *)
(*   noverify [has, v], ca ("none", "ca1", "ca3", "missing", "garbage"),   *)
(*   cert ("none", "ok", "missing", "garbage", "nokey", "wrongkey")        *)
(* A plan p is what its peer does:                                         *)
(*   tcp ("ok", "refuse", "stall"), srv ("plain", "tls", "deaf"),          *)
(*   hs ("ok", "stall", "close", "garbage"), cert [by, host, when, use],   *)
(*   ask (a client certificate is asked for), ver, init                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Inputs, Plans,  \* when exploring
          UseKinds, MaxUses,
          Defects         \* deliberate mistakes, to see the properties fail

VARIABLES c, p,
          pc,     \* of the caller: "idle", "opening", "open", "failed", "closed"
          acc,    \* connections the server accepted
          first,  \* the first bytes it got: "none", "tls", "plain"
          tls,    \* the TLS handshake is done
          pre,    \* it got the preamble
          ver,    \* the version it answered
          init,   \* initializations it got
          rep,    \* what it answered to them
          eof,    \* it saw the end of the connection
          use     \* the call in progress on the open connection: [k, n, said]
                  \* k: "-" none; n: calls so far; said: answer given; dead: connection unusable

vars == <<c, p, pc, acc, first, tls, pre, ver, init, rep, eof, use>>

-----------------------------------------------------------------------------
(* The meaning of a connection string *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DigitVal == [d \in Digits |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4
                                [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] d = "9" -> 9]
Body(s) == IF Len(s) > 0 /\ s[1] \in {"+", "-"} THEN Tail(s) ELSE s
IsInt(s) == Len(Body(s)) > 0 /\ \A i \in 1..Len(Body(s)) : Body(s)[i] \in Digits
RECURSIVE Nat10(_)
Nat10(s) == IF s = <<>> THEN 0 ELSE 10 * Nat10(SubSeq(s, 1, Len(s) - 1)) + DigitVal[s[Len(s)]]
(* as many seconds as a time can be long: 2^63 ns *)
RECURSIVE Strip(_)
Strip(s) == IF s # <<>> /\ s[1] = "0" THEN Strip(Tail(s)) ELSE s
Longest == <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6>>
Sensible(s) == LET b == Strip(Body(s)) IN
               \/ Len(b) < 10
               \/ /\ Len(b) = 10
                  /\ \A i \in 1..10 : DigitVal[b[i]] > Longest[i] =>
                                      \E j \in 1..(i - 1) : DigitVal[b[j]] < Longest[j]
IntVal(s) == IF s[1] = "-" THEN 0 - Nat10(Body(s)) ELSE Nat10(Body(s))

BoltScheme == {"bolt", "BOLT", "Bolt", "bOlT"}
Yes == {"1", "t", "T", "true", "True", "TRUE"}
On(o) == o.has /\ o.v \in Yes

Valid(x) == /\ ~x.broken
            /\ x.scheme \in BoltScheme
            /\ x.cred # "nopass"
            /\ x.timeout.has => IsInt(x.timeout.v) /\ Sensible(x.timeout.v)
UseTLS(x) == On(x.tls)
NoVerify(x) == On(x.noverify)
Seconds(x) == IF x.timeout.has THEN IntVal(x.timeout.v) ELSE 60
Auth(x) == IF x.cred = "none" THEN [scheme |-> "none", principal |-> "-", credentials |-> "-"]
           ELSE [scheme |-> "basic", principal |-> x.user, credentials |-> x.pass]
FilesBad(x) == UseTLS(x) /\ (x.ca \in {"missing", "garbage"} \/ x.cert \in {"missing", "garbage", "nokey", "wrongkey"})
Roots(x) == CASE x.ca = "none" -> {"ca2"} [] x.ca = "ca1" -> {"ca1"} [] x.ca = "ca3" -> {"ca3"} [] OTHER -> {}
(* "inter": by an authority that ca1 vouches for, which comes along; "lone": it does not *)
Issuers(x) == Roots(x) \union (IF "ca1" \in Roots(x) THEN {"inter"} ELSE {})
(* hosts: "ok" among others, "only", "else" (all but the one asked for), "other" *)
Trusts(x, cert) == \/ NoVerify(x)
                   \/ cert.by \in Issuers(x) /\ cert.host \in {"ok", "only"} /\ cert.when = "now" /\ cert.use = "server"

Preamble == "6060b01700000001000000000000000000000000"
Client == "GolangNeo4jBolt/1.0"
(* answers that are all right, late or in pieces as they may be *)
GoodVer == {"good", "slow", "bytes"}
GoodInit == {"ok", "slow", "bytes"}
Silent == {"stall", "partstall"}

-----------------------------------------------------------------------------
NoUse == [k |-> "-", n |-> 0, said |-> "-", dead |-> FALSE]

Init == /\ c \in Inputs /\ p \in Plans
        /\ pc = "idle" /\ acc = 0 /\ first = "none" /\ tls = FALSE /\ pre = FALSE
        /\ ver = "-" /\ init = 0 /\ rep = "-" /\ eof = FALSE /\ use = NoUse

(* opening can't succeed any more *)
Doomed == \/ ~Valid(c) \/ FilesBad(c)
          \/ p.tcp # "ok"
          \/ acc > 0 /\ \/ p.srv = "deaf"
                        \/ UseTLS(c) /\ (p.srv # "tls" \/ p.hs # "ok" \/ ~Trusts(c, p.cert))
                        \/ ~UseTLS(c) /\ p.srv = "tls"
          \/ ver \notin {"-"} \union GoodVer
          \/ pre /\ p.ver \in Silent
          \/ rep \notin {"-"} \union GoodInit
          \/ init > 0 /\ p.init \in Silent

Call == /\ pc = "idle" /\ pc' = "opening"
        /\ UNCHANGED <<c, p, acc, first, tls, pre, ver, init, rep, eof, use>>

(* the client may still send things a moment before it finds out *)
Active == pc \in {"opening", "failed"}

Accept == /\ Active /\ acc = 0 /\ (Valid(c) \/ "contact" \in Defects) /\ p.tcp = "ok"
          /\ acc' = acc + 1
          /\ UNCHANGED <<c, p, pc, first, tls, pre, ver, init, rep, eof, use>>

First(k) == /\ Active /\ acc > 0 /\ first = "none" /\ ~eof
            /\ k = IF UseTLS(c) /\ ~("clear" \in Defects /\ p.srv = "plain") THEN "tls" ELSE "plain"
            /\ first' = k
            /\ UNCHANGED <<c, p, pc, acc, tls, pre, ver, init, rep, eof, use>>

(* cc: the certificate the client presented, if asked to *)
TLSDone(cc) == /\ Active /\ first = "tls" /\ ~tls /\ ~eof
               /\ p.srv = "tls" /\ p.hs = "ok" /\ ~FilesBad(c)
               /\ Trusts(c, p.cert) \/ "trust" \in Defects
               /\ p.ask => cc = (IF c.cert = "ok" THEN "same" ELSE "none")
               /\ tls' = TRUE
               /\ UNCHANGED <<c, p, pc, acc, first, pre, ver, init, rep, eof, use>>

GotPreamble(b) == /\ Active /\ ~pre /\ ~eof /\ b = Preamble
                  /\ IF first = "tls" THEN tls ELSE first = "plain"
                  /\ pre' = TRUE
                  /\ UNCHANGED <<c, p, pc, acc, first, tls, ver, init, rep, eof, use>>

SayVer(k) == /\ pre /\ ver = "-" /\ k = p.ver /\ k \notin {"stall"}
             /\ ver' = k
             /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, init, rep, eof, use>>

GotInit(client, auth) == /\ Active /\ init = 0 /\ ~eof
                         /\ ver \in GoodVer \union (IF "anyver" \in Defects THEN {"none", "other"} ELSE {})
                         /\ client = Client /\ auth = Auth(c)
                         /\ init' = 1
                         /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, rep, eof, use>>

SayInit(k) == /\ init = 1 /\ rep = "-" /\ k = p.init /\ k \notin {"stall"}
              /\ rep' = k
              /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, init, eof, use>>

(* the server sees the end of the connection *)
Eof == /\ acc > 0 /\ ~eof
       /\ IF pc = "opening" THEN Doomed
          ELSE pc \in {"failed", "closed"} \/ use.dead
       /\ ~("leak" \in Defects /\ pc = "failed")
       /\ eof' = TRUE
       /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, init, rep, use>>

RetOk == /\ pc = "opening" /\ ~eof
         /\ rep \in GoodInit \/ ("accept" \in Defects /\ rep = "ignored")
         /\ pc' = "open"
         /\ UNCHANGED <<c, p, acc, first, tls, pre, ver, init, rep, eof, use>>

(* err: what is innermost, "fail" being the failure the server sent *)
RetErr(err) == /\ pc = "opening" /\ Doomed
               /\ rep = "fail" <=> err = "fail"
               /\ pc' = "failed"
               /\ UNCHANGED <<c, p, acc, first, tls, pre, ver, init, rep, eof, use>>

-----------------------------------------------------------------------------
(* Calls on the open connection. k is what the server will do about it:    *)
(* answer ("ok", "slow", "bytes"), stop ("stall", "partstall", "noread")   *)
UseCall(k) == /\ pc = "open" /\ use.k = "-"
              /\ use' = [use EXCEPT !.k = k, !.n = @ + 1, !.said = "-"]
              /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, init, rep, eof>>

UseSay == /\ use.k \in {"ok", "slow", "bytes", "partstall"} /\ use.said = "-" /\ ~use.dead
          /\ use' = [use EXCEPT !.said = use.k]
          /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, init, rep, eof>>

UseRetOk == /\ use.said \in {"ok", "slow", "bytes"} /\ use.k # "-" /\ ~use.dead
            /\ use' = [use EXCEPT !.k = "-", !.said = "-"]
            /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, init, rep, eof>>

UseRetErr == /\ use.k # "-" /\ (use.dead \/ use.k \in {"stall", "partstall", "noread"})
             /\ use' = [use EXCEPT !.k = "-", !.said = "-", !.dead = TRUE]
             /\ UNCHANGED <<c, p, pc, acc, first, tls, pre, ver, init, rep, eof>>

Close == /\ pc = "open" /\ use.k = "-" /\ pc' = "closed"
         /\ UNCHANGED <<c, p, acc, first, tls, pre, ver, init, rep, eof, use>>

-----------------------------------------------------------------------------
Next == \/ Call \/ Accept \/ TLSDone("none") \/ TLSDone("same") \/ GotPreamble(Preamble) \/ Eof \/ RetOk \/ Close
        \/ First("tls") \/ First("plain")
        \/ SayVer(p.ver) \/ GotInit(Client, Auth(c)) \/ SayInit(p.init)
        \/ RetErr("fail") \/ RetErr("other")
        \/ (use.n < MaxUses /\ \E k \in UseKinds : UseCall(k)) \/ UseSay \/ UseRetOk \/ UseRetErr

Spec == Init /\ [][Next]_vars
Client_ == \/ Call \/ Accept \/ TLSDone("none") \/ TLSDone("same") \/ GotPreamble(Preamble) \/ Eof \/ RetOk
           \/ First("tls") \/ First("plain") \/ SayVer(p.ver) \/ GotInit(Client, Auth(c)) \/ SayInit(p.init)
           \/ RetErr("fail") \/ RetErr("other") \/ UseSay \/ UseRetOk \/ UseRetErr
FairSpec == Spec /\ WF_vars(Client_)

-----------------------------------------------------------------------------
(* C18: open only once the server took the version and the initialization  *)
OpenOnlyAfterInit == pc \in {"open", "closed"} => /\ acc = 1 /\ pre /\ ver \in GoodVer /\ init = 1 /\ rep \in GoodInit
InitOnlyAfterVersion == init > 0 => pre /\ ver \in GoodVer /\ init = 1
FailureIsDeserved == pc = "failed" => Doomed
(* C19: nothing is sent anywhere for a string that is refused              *)
NoContact == ~Valid(c) => acc = 0 /\ pc \notin {"open", "closed"}
(* C20 *)
NeverClear == UseTLS(c) => first # "plain" /\ (pre => tls)
Verified == tls => Trusts(c, p.cert)
OnlyWhenAsked == tls => UseTLS(c)
FilesUsable == FilesBad(c) => pc \notin {"open", "closed"} /\ ~tls
(* C18, C23: opening ends, and a failed one leaves no connection behind    *)
Ends == (pc = "opening") ~> (pc # "opening")
NoneLeft == (pc = "failed" /\ acc > 0) ~> eof
Returns == (use.k # "-") ~> (use.k = "-")
=============================================================================
