--------------------------- MODULE BoltSessionGen ---------------------------
(* BoltSession, writing out its transition graph: one line for every       *)
(* transition with the fingerprints of both states and what happened.      *)
EXTENDS BoltSession, TLCExt

CallN == IF call'.n > 0 THEN call'.n
         ELSE IF c'.stmt.st = "open" /\ c'.stmt.pipe THEN c'.stmt.n
         ELSE IF call'.op \in PipeOps THEN 2 ELSE 1

EdgeKind == IF call = Idle /\ call' # Idle THEN "C " \o call'.op \o " " \o ToString(CallN)
            ELSE IF s'.gone # s.gone /\ s'.gone # "no" THEN "G " \o s'.gone \o " 0"
            ELSE IF Len(s2c') > Len(s2c) THEN "A " \o s2c'[Len(s2c')].k \o " 0"
            ELSE IF call # Idle /\ call' = Idle THEN "R - 0"
            ELSE "I - 0"

(* fingerprints have 32 bits, two make collisions unlikely *)
Name == ToString(TLCFP(vars)) \o "_" \o ToString(TLCFP(<<vars, "second">>))

EdgeLog == PrintT("E " \o Name \o " " \o Name' \o " " \o EdgeKind)
=============================================================================
