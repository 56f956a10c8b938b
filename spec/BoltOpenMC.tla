----------------------------- MODULE BoltOpenMC -----------------------------
(* every kind of connection string against every kind of peer *)
EXTENDS BoltOpen
No == [has |-> FALSE, v |-> "-"]
Opt(s) == [has |-> TRUE, v |-> s]
Plain == [broken |-> FALSE, scheme |-> "bolt", cred |-> "none", user |-> "-", pass |-> "-", timeout |-> [has |-> FALSE, v |-> <<>>],
          tls |-> No, noverify |-> No, ca |-> "none", cert |-> "none"]
Strings == {[Plain EXCEPT !.broken = TRUE], [Plain EXCEPT !.scheme = "http"], [Plain EXCEPT !.scheme = "BOLT"],
            [Plain EXCEPT !.cred = "nopass", !.user = "61"], [Plain EXCEPT !.cred = "full", !.user = "61", !.pass = "62"],
            [Plain EXCEPT !.timeout = Opt(<<"1", "5">>)], [Plain EXCEPT !.timeout = Opt(<<"1", "s">>)], [Plain EXCEPT !.tls = Opt("false")], Plain}
Secure == {[Plain EXCEPT !.tls = Opt("true"), !.noverify = n, !.ca = a, !.cert = k] :
           n \in {No, Opt("1"), Opt("0")}, a \in {"none", "ca1", "ca3", "missing", "garbage"}, k \in {"none", "ok", "missing", "nokey", "wrongkey"}}
AllInputs == Strings \union Secure
Cert(b, h, w, u) == [by |-> b, host |-> h, when |-> w, use |-> u]
GoodCert == Cert("ca1", "ok", "now", "server")
Certs == {GoodCert, Cert("ca2", "ok", "now", "server"), Cert("ca3", "ok", "now", "server"), Cert("self", "ok", "now", "server"),
          Cert("ca1", "other", "now", "server"), Cert("ca1", "only", "now", "server"), Cert("ca1", "else", "now", "server"),
          Cert("inter", "ok", "now", "server"), Cert("lone", "ok", "now", "server"), Cert("ca1", "ok", "past", "server"), Cert("ca1", "ok", "future", "server"), Cert("ca1", "ok", "now", "client")}
Base == [tcp |-> "ok", srv |-> "plain", hs |-> "ok", cert |-> GoodCert, ask |-> FALSE, ver |-> "good", init |-> "ok"]
AllVer == {"good", "slow", "bytes", "none", "other", "close", "short", "stall", "partstall"}
AllInit == {"ok", "slow", "bytes", "fail", "ignored", "record", "junk", "close", "short", "stall", "partstall"}
AllPlans == {[Base EXCEPT !.tcp = "refuse"], [Base EXCEPT !.tcp = "stall"], [Base EXCEPT !.srv = "deaf"]}
            \union {[Base EXCEPT !.srv = s, !.ver = v] : s \in {"plain", "tls"}, v \in AllVer}
            \union {[Base EXCEPT !.srv = s, !.init = i] : s \in {"plain", "tls"}, i \in AllInit}
            \union {[Base EXCEPT !.srv = "tls", !.hs = h] : h \in {"stall", "close", "garbage"}}
            \union {[Base EXCEPT !.srv = "tls", !.cert = x, !.ask = a] : x \in Certs, a \in BOOLEAN}
=============================================================================
