------------------------------ MODULE BoltData ------------------------------
(***************************************************************************)
(* What goes in and comes out of queries: the parameters of a call, given  *)
(* natively or as the encoded maps of database/sql, the columns, rows and  *)
(* summaries of results, and what their accessors report.                  *)
(*                                                                         *)
(* The server has a script: for its n-th query [meta, rows, sum], the      *)
(* metadata before the rows, the rows, and the summary after them. Values  *)
(* are those of PackStream.                                                *)
(*                                                                         *)
(* An argument is [k |-> "map", m] (a parameter map), [k |-> "bytes", b]   *)
(* (a byte string, its meaning is that of PackStream) or [k |-> "other"].  *)
(***************************************************************************)
EXTENDS PackStream

CONSTANTS LB,      \* integers are summed up in four digits of this base
          Defects  \* deliberate mistakes, to see the properties fail

VARIABLES script,
          ph,    \* "idle", "called", "rows"
          call,  \* [k, sql, n, want, verdict] of the call in progress
          base,  \* queries the server got before it
          got,   \* and because of it
          cur,   \* the open rows: [set, pos, off]
          out    \* rows given so far, of the current set

vars == <<script, ph, call, base, got, cur, out>>

-----------------------------------------------------------------------------
(* Parameters *)
MapsOf(a) ==
  CASE a.k = "map" -> [r |-> "map", m |-> a.m]
    [] a.k = "bytes" ->
       LET s == Stream(a.b) IN
       IF s.msgs = <<>> THEN [r |-> "refuse", m |-> {}]
       ELSE LET x == DecMsg(s.msgs[1].b, TRUE) IN
            IF ~x.ok THEN [r |-> "refuse", m |-> {}]
            ELSE IF x.v.t # "map" THEN [r |-> "refuse", m |-> {}]
            ELSE [r |-> IF s.whole /\ Len(s.msgs) = 1 /\ ~x.dup /\ x.rest = 0 THEN "map" ELSE "either", m |-> x.v.m]
    [] OTHER -> [r |-> "refuse", m |-> {}]

Keys(m) == {e[1] : e \in m}
Over(a, b) == {e \in a : e[1] \notin Keys(b)} \union b
Merge(ms) == FoldLeft(LAMBDA acc, m : IF "firstwins" \in Defects THEN Over(m, acc) ELSE Over(acc, m), {}, ms)

(* the parameters of one query, and whether the call may or must be refused *)
Asked(args) ==
  LET x == [j \in 1..Len(args) |-> MapsOf(args[j])]
  IN [verdict |-> IF \E j \in 1..Len(x) : x[j].r = "refuse" THEN "refuse"
                  ELSE IF \E j \in 1..Len(x) : x[j].r = "either" THEN "either" ELSE "ok",
      params |-> Merge([j \in 1..Len(x) |-> x[j].m])]

-----------------------------------------------------------------------------
(* Columns and summaries *)
KFields == Rope(<<102, 105, 101, 108, 100, 115>>)
KStats == Rope(<<115, 116, 97, 116, 115>>)
Counters == <<Rope(<<110, 111, 100, 101, 115, 45, 99, 114, 101, 97, 116, 101, 100>>),
              Rope(<<114, 101, 108, 97, 116, 105, 111, 110, 115, 104, 105, 112, 115, 45, 99, 114, 101, 97, 116, 101, 100>>),
              Rope(<<110, 111, 100, 101, 115, 45, 100, 101, 108, 101, 116, 101, 100>>),
              Rope(<<114, 101, 108, 97, 116, 105, 111, 110, 115, 104, 105, 112, 115, 45, 100, 101, 108, 101, 116, 101, 100>>)>>

Has(m, k) == \E e \in m : e[1] = k
Get(m, k) == (CHOOSE e \in m : e[1] = k)[2]

(* a list is given as runs of equal elements *)
Elems(l) == FoldLeft(LAMBDA acc, run : acc \o [j \in 1..run[2] |-> run[1]], <<>>, l)

Columns(meta) ==
  IF ~Has(meta.m, KFields) THEN <<>>
  ELSE LET f == Get(meta.m, KFields) IN
       IF f.t # "list" THEN <<>>
       ELSE IF ~AllElems(f.l, IsStr) THEN <<>>
       ELSE Elems(f.l)

(* integers as four digits, the first with the sign *)
Limbs(i) == IF Len(i) = 4 THEN i
            ELSE LET w == [j \in 1..4 |-> i[2 * j - 1] * 256 + i[2 * j]]
                 IN <<IF w[1] >= 32768 THEN w[1] - 65536 ELSE w[1], w[2], w[3], w[4]>>
Carry(x) == LET c3 == x[4] \div LB       s3 == x[3] + c3
                c2 == s3 \div LB         s2 == x[2] + c2
                c1 == s2 \div LB
            IN <<x[1] + c1, s2 % LB, s3 % LB, x[4] % LB>>
Add(a, b) == Carry([j \in 1..4 |-> a[j] + b[j]])
Zero4 == <<0, 0, 0, 0>>
Fits(a) == a[1] >= 0 - (LB \div 2) /\ a[1] < LB \div 2
Total(ls) == FoldLeft(LAMBDA acc, a : Add(acc, a), Zero4, ls)

(* what RowsAffected may say: [ok, n] or an error *)
Counted(sum) ==
  IF ~Has(sum.m, KStats) THEN [ok |-> TRUE, ls |-> <<>>]
  ELSE LET st == Get(sum.m, KStats) IN
       IF st.t # "map" THEN [ok |-> FALSE, ls |-> <<>>]
       ELSE LET present == SelectSeq(Counters, LAMBDA k : Has(st.m, k))
                vals == [j \in 1..Len(present) |-> Get(st.m, present[j])]
            IN IF \E j \in 1..Len(vals) : vals[j].t # "int" THEN [ok |-> FALSE, ls |-> <<>>]
               ELSE [ok |-> TRUE, ls |-> [j \in 1..Len(vals) |-> Limbs(vals[j].i)]]

AffectedOK(sum, r) ==
  LET c == Counted(sum)
      t == Total(c.ls)
      pos == Total(SelectSeq(c.ls, LAMBDA a : a[1] >= 0))
      neg == Total(SelectSeq(c.ls, LAMBDA a : a[1] < 0))
  IN IF ~c.ok THEN r.err
     ELSE IF r.err THEN ~Fits(pos) \/ ~Fits(neg)   \* nothing but a sum that is too large
     ELSE Fits(t) /\ Limbs(r.n.i) = t

ResultOK(sum, r) == /\ AffectedOK(sum, r.ra)
                    /\ ~r.lid.err /\ Limbs(r.lid.n.i) = [j \in 1..4 |-> IF j = 1 THEN -1 ELSE LB - 1]
                    /\ r.meta = sum

(* a value as database/sql gets it *)
Scalar == {"nil", "bool", "int", "float", "str"}
SqlOK(d, v) ==
  IF v.t \in Scalar THEN d.t = v.t /\ d = v
  ELSE IF d.t # "bytes" THEN FALSE
  ELSE LET s == Stream(d.b) IN
       IF ~s.whole \/ Len(s.msgs) # 1 THEN FALSE
       ELSE LET x == DecMsg(s.msgs[1].b, FALSE)
            IN IF ~x.ok THEN FALSE ELSE x.rest = 0 /\ ~x.dup /\ Same(x.v, v) /\ Same(d.back, v)

-----------------------------------------------------------------------------
NoCall == [k |-> "-", sql |-> FALSE, n |-> 0, want |-> <<>>, verdict |-> "ok"]
NoRows == [set |-> 0, pos |-> 0, off |-> FALSE]
Script(j) == script[base + j]
ThisSet == Script(cur.set)

Start(s) == /\ script = s /\ ph = "idle" /\ call = NoCall /\ base = 0 /\ got = 0 /\ cur = NoRows /\ out = <<>>

(* argss: the arguments of each query *)
Call(k, sql, argss) ==
  /\ ph = "idle"
  /\ LET a == [j \in 1..Len(argss) |-> Asked(argss[j])]
     IN call' = [k |-> k, sql |-> sql, n |-> Len(argss), want |-> [j \in 1..Len(a) |-> a[j].params],
                 verdict |-> IF \E j \in 1..Len(a) : a[j].verdict = "refuse" THEN "refuse"
                             ELSE IF \E j \in 1..Len(a) : a[j].verdict = "either" THEN "either" ELSE "ok"]
  /\ ph' = "called" /\ base' = base + got /\ got' = 0 /\ cur' = NoRows /\ out' = <<>>
  /\ UNCHANGED script

(* the server gets a query with parameters m *)
Req(m) ==
  /\ ph = "called" \/ (ph = "rows" /\ call.k = "qpipe")   \* a pipeline's rows may be there before all of it has arrived
  /\ got < call.n /\ (call.verdict # "refuse" \/ "sendbad" \in Defects)
  /\ m = call.want[got + 1]
  /\ got' = got + 1
  /\ UNCHANGED <<script, ph, call, base, cur, out>>

RetErr == /\ ph = "called" /\ call.verdict # "ok" /\ (got = 0 \/ "sendbad" \in Defects)
          /\ ph' = "idle" /\ UNCHANGED <<script, call, base, got, cur, out>>

(* res: what the results say, or nothing if nobody asked *)
RetExec(res) ==
  /\ ph = "called" /\ call.k = "exec" /\ got = call.n
  /\ res = <<>> \/ (Len(res) = call.n /\ \A j \in 1..call.n : ResultOK(Script(j).sum, res[j]))
  /\ ph' = "idle" /\ UNCHANGED <<script, call, base, got, cur, out>>

RetAll(rows, meta, sum) ==
  /\ ph = "called" /\ call.k = "all" /\ got = 1
  /\ rows = Script(1).rows /\ meta = Script(1).meta /\ sum = Script(1).sum
  /\ ph' = "idle" /\ UNCHANGED <<script, call, base, got, cur, out>>

ColumnsOK(cols, s) == LET c == Columns(s.meta) IN Len(cols) = Len(c) /\ \A j \in 1..Len(c) : Same(cols[j], c[j])

RetRows(cols, meta) ==
  /\ ph = "called" /\ call.k \in {"rows", "qpipe"} /\ got >= 1
  /\ ColumnsOK(cols, Script(1)) /\ meta = Script(1).meta
  /\ ph' = "rows" /\ cur' = [NoRows EXCEPT !.set = 1] /\ out' = <<>>
  /\ UNCHANGED <<script, call, base, got>>

Width == Len(Columns(ThisSet.meta))
Fitting(row) == ~call.sql \/ Len(row) = Width

NextRow(d) ==
  /\ ph = "rows" /\ cur.pos < Len(ThisSet.rows)
  /\ LET row == ThisSet.rows[cur.pos + 1] IN
       /\ Fitting(row) \/ "stale" \in Defects
       /\ Len(d) = Len(row) \/ "stale" \in Defects
       /\ \A j \in 1..Len(d) : IF call.sql THEN IF j <= Len(row) THEN SqlOK(d[j], row[j]) ELSE IF out = <<>> THEN FALSE ELSE j <= Len(out[Len(out)]) /\ Same(d[j], out[Len(out)][j])
                               ELSE Same(d[j], row[j])
  /\ cur' = [cur EXCEPT !.pos = @ + 1] /\ out' = Append(out, d)
  /\ UNCHANGED <<script, ph, call, base, got>>

(* a row that doesn't fit its columns can't be had through database/sql *)
NextErr ==
  /\ ph = "rows" /\ call.sql
  /\ cur.off \/ (cur.pos < Len(ThisSet.rows) /\ ~Fitting(ThisSet.rows[cur.pos + 1]))
  /\ cur' = [cur EXCEPT !.pos = IF @ < Len(ThisSet.rows) THEN @ + 1 ELSE @, !.off = TRUE]
  /\ out' = IF cur.pos < Len(ThisSet.rows) THEN Append(out, <<>>) ELSE out
  /\ UNCHANGED <<script, ph, call, base, got>>

(* sum: the summary, where the interface gives it *)
NextEnd(sum) ==
  /\ ph = "rows" /\ cur.pos = Len(ThisSet.rows) /\ (call.k = "qpipe" => cur.set = call.n)
  /\ sum.t = "-" \/ Same(sum, ThisSet.sum)
  /\ ph' = "rows"
  /\ UNCHANGED <<script, call, base, got, cur, out>>

NextSet(cols, meta) ==
  /\ ph = "rows" /\ call.k = "qpipe" /\ cur.pos = Len(ThisSet.rows) /\ cur.set < got
  /\ ColumnsOK(cols, Script(cur.set + 1)) /\ meta = Script(cur.set + 1).meta
  /\ cur' = [NoRows EXCEPT !.set = cur.set + 1] /\ out' = <<>>
  /\ UNCHANGED <<script, ph, call, base, got>>

CloseRows == /\ ph = "rows" /\ ph' = "idle" /\ UNCHANGED <<script, call, base, got, cur, out>>

-----------------------------------------------------------------------------
(* C21: what reaches the server is what the last argument with each name says, *)
(* and nothing of a call that is refused                                       *)
NothingOfRefused == call.verdict = "refuse" => got = 0
(* C21: every row given is the row of the server at that place, in full        *)
RowsAreTheServers ==
  cur.set > 0 => \A j \in 1..Len(out) :
     LET row == ThisSet.rows[j] IN
     out[j] = <<>> \/ (Len(out[j]) = Len(row) /\ \A i \in 1..Len(row) : call.sql => SqlOK(out[j][i], row[i]))
OnlyFitting == cur.set > 0 /\ call.sql => \A j \in 1..Len(out) : out[j] = <<>> \/ Len(out[j]) = Width
=============================================================================
