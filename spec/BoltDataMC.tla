----------------------------- MODULE BoltDataMC -----------------------------
(* BoltData over a small universe, and the laws of its functions *)
EXTENDS BoltData, TLC

A == Rope(<<97>>)
B == Rope(<<98>>)
V == {Int64(<<0, 0, 0, 1>>), Nil}
SmallMaps == {{}} \union {{<<A, v>>} : v \in V} \union {{<<B, v>>} : v \in V} \union {{<<A, v>>, <<B, w>>} : v \in V, w \in V}
Args == {[k |-> "map", m |-> m] : m \in SmallMaps} \union {[k |-> "other"]}
ArgLists == {<<>>} \union {<<a>> : a \in Args} \union {<<a, b>> : a \in Args, b \in Args}

(* integers of four digits of base 4: 8 bits *)
Digits4 == (-2..1) \X (0..3) \X (0..3) \X (0..3)
Plain(a) == ((a[1] * 4 + a[2]) * 4 + a[3]) * 4 + a[4]
Some4 == {a \in Digits4 : Plain(a) \in {-128, -127, -64, -5, -1, 0, 1, 3, 4, 63, 64, 126, 127}}

ASSUME LimbsAdd == \A a \in Digits4, b \in Some4 : Plain(Add(a, b)) = Plain(a) + Plain(b)
ASSUME LimbsFit == \A a \in Some4, b \in Some4 : Fits(Add(a, b)) <=> Plain(a) + Plain(b) \in -128..127
ASSUME MergeLaw ==
  \A x \in SmallMaps, y \in SmallMaps, z \in SmallMaps :
    LET m == Merge(<<x, y, z>>) IN
    /\ Keys(m) = Keys(x) \union Keys(y) \union Keys(z)
    /\ Cardinality(m) = Cardinality(Keys(m))
    /\ \A k \in Keys(m) : Get(m, k) = IF Has(z, k) THEN Get(z, k) ELSE IF Has(y, k) THEN Get(y, k) ELSE Get(x, k)

Stats(x, y) == Map({<<KStats, Map({<<Counters[1], x>>, <<Counters[4], y>>})>>})
Sums == {Map({}), Stats(Int64(<<1, 3, 3, 3>>), Int64(<<0, 0, 0, 1>>)), Stats(Int64(<<0, 0, 0, 2>>), Nil), Map({<<KStats, Nil>>}),
         Stats(Int64(<<-1, 3, 3, 2>>), Int64(<<0, 0, 1, 3>>))}
Said == [err : BOOLEAN, n : {Int64(a) : a \in Some4}]
(* never two different numbers, never a number for what is malformed *)
ASSUME OneNumber == \A s \in Sums : \A r1 \in Said, r2 \in Said :
  (AffectedOK(s, r1) /\ AffectedOK(s, r2) /\ ~r1.err /\ ~r2.err) => r1.n = r2.n
ASSUME Malformed == \A r \in Said : AffectedOK(Stats(Int64(<<0, 0, 0, 2>>), Nil), r) => r.err
ASSUME TooLarge == \A r \in Said : AffectedOK(Stats(Int64(<<1, 3, 3, 3>>), Int64(<<0, 0, 0, 1>>)), r) => r.err
ASSUME NoneIsZero == \A r \in Said : AffectedOK(Map({}), r) => ~r.err /\ r.n.i = Zero4

Fields(cols) == Map({<<KFields, List(cols)>>})
Metas == {Fields(<<<<Str(A), 1>>>>), Fields(<<<<Str(A), 1>>, <<Str(B), 1>>>>), Map({}), Fields(<<<<Nil, 1>>>>)}
Rows1 == {<<>>} \union {<<v>> : v \in V} \union {<<v, w>> : v \in V, w \in V}
Scripts == {<<[meta |-> m, rows |-> r, sum |-> Map({})], [meta |-> m2, rows |-> <<>>, sum |-> Map({})]>> :
              m \in Metas, m2 \in {Map({})}, r \in {<<>>} \union {<<x>> : x \in Rows1} \union {<<x, y>> : x \in Rows1, y \in Rows1}}

Init == \E s \in Scripts : Start(s)
Dests == Rows1
Cols(m) == Columns(m)
Next ==
  \/ \E k \in {"exec", "rows", "all"}, sql \in BOOLEAN, a \in ArgLists : base + got = 0 /\ call.k = "-" /\ Call(k, sql, <<a>>)
  \/ base + got = 0 /\ call.k = "-" /\ Call("qpipe", FALSE, <<<<>>, <<>>>>)
  \/ \E m \in SmallMaps : Req(m)
  \/ RetErr \/ RetExec(<<>>) \/ RetAll(Script(1).rows, Script(1).meta, Script(1).sum)
  \/ RetRows(Cols(Script(1).meta), Script(1).meta)
  \/ \E d \in Dests : NextRow(d)
  \/ NextErr \/ NextEnd([t |-> "-"]) \/ CloseRows
  \/ (cur.set < call.n /\ cur.set > 0 /\ NextSet(Cols(Script(cur.set + 1).meta), Script(cur.set + 1).meta))
Spec == Init /\ [][Next]_vars
=============================================================================
