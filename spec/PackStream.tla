----------------------------- MODULE PackStream -----------------------------
(***************************************************************************)
(* PackStream v1 and Bolt v1 chunking.                                     *)
(*                                                                         *)
(* Byte strings are run-length encoded ("ropes"): <<<<byte, count>>, ...>> *)
(* without adjacent equal bytes, so that values of 65536 and more elements *)
(* stay small.  Values are records with a type tag t:                      *)
(*   nil | bool (o: 0/1) | int (i: 8 bytes, two's complement, big endian)  *)
(*   float (f: 8 bytes) | str (s: rope) | list (l: runs <<value, count>>)  *)
(*   map (m: set of <<key rope, value>>) | struct (g: signature, h: fields)*)
(*                                                                         *)
(* Dec is the meaning of bytes.  Encoding is specified as its inverse: the *)
(* bytes of v are those that Dec maps to v with every size in its smallest *)
(* form (min) and nothing left over.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

-----------------------------------------------------------------------------
(* Ropes *)

(* An indexed rope [r |-> runs, e |-> offset of the end of each run] is     *)
(* what is read from; a position is an offset with the index of its run.   *)
RopeSize(r) == FoldLeft(LAMBDA n, run : n + run[2], 0, r)

Index(r) == [r |-> r, e |-> FoldLeft(LAMBDA e, run : Append(e, (IF e = <<>> THEN 0 ELSE e[Len(e)]) + run[2]), <<>>, r)]

Start0(x) == [k |-> 1, a |-> 0, left |-> IF x.e = <<>> THEN 0 ELSE x.e[Len(x.e)]]

ByteAt(x, p) == x.r[p.k][1]
RunLeft(x, p) == x.e[p.k] - p.a

(* the index of the run of offset a, which is in lo..hi *)
RECURSIVE Find(_, _, _, _)
Find(e, a, lo, hi) == IF lo = hi THEN lo
                      ELSE LET mid == (lo + hi) \div 2
                           IN IF a < e[mid] THEN Find(e, a, lo, mid) ELSE Find(e, a, mid + 1, hi)

RunOf(x, p, a) == IF p.k <= Len(x.e) /\ a < x.e[p.k] THEN p.k
                  ELSE IF p.k + 1 <= Len(x.e) /\ a < x.e[p.k + 1] THEN p.k + 1
                  ELSE Find(x.e, a, p.k, Len(x.e) + 1)

Adv(x, p, n) == IF n = 0 THEN p ELSE [k |-> RunOf(x, p, p.a + n), a |-> p.a + n, left |-> p.left - n]

Slice(x, p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET k2 == RunOf(x, p, p.a + n - 1)
       IN IF k2 = p.k THEN <<<<x.r[p.k][1], n>>>>
          ELSE <<<<x.r[p.k][1], RunLeft(x, p)>>>>
               \o SubSeq(x.r, p.k + 1, k2 - 1)
               \o <<<<x.r[k2][1], p.a + n - x.e[k2 - 1]>>>>

(* concatenation in canonical form *)
Cat(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE IF a[Len(a)][1] = b[1][1]
                  THEN SubSeq(a, 1, Len(a) - 1) \o <<<<b[1][1], a[Len(a)][2] + b[1][2]>>>> \o Tail(b)
                  ELSE a \o b

RECURSIVE Bytes(_, _, _)
Bytes(r, p, n) == IF n = 0 THEN <<>> ELSE <<ByteAt(r, p)>> \o Bytes(r, Adv(r, p, 1), n - 1)

-----------------------------------------------------------------------------
(* Results of decoding *)
Err == [ok |-> FALSE]
Ok(v, p, min, dup) == [ok |-> TRUE, v |-> v, p |-> p, min |-> min, dup |-> dup]

Nil == [t |-> "nil"]
Bool(b) == [t |-> "bool", o |-> b]
Int64(b) == [t |-> "int", i |-> b]
Str(s) == [t |-> "str", s |-> s]
List(l) == [t |-> "list", l |-> l]
Map(m) == [t |-> "map", m |-> m]
Struct(g, h) == [t |-> "struct", g |-> g, h |-> h]

(* sign extension of the last n bytes to 8 *)
Ext(b) == LET s == IF b[1] >= 128 THEN 255 ELSE 0
          IN [j \in 1..8 |-> IF j <= 8 - Len(b) THEN s ELSE b[j - (8 - Len(b))]]

AllAre(b, n, x) == \A j \in 1..n : b[j] = x

(* the number of payload bytes the smallest representation has (0: tiny) *)
IntClass(b) ==
  IF AllAre(b, 7, 0) /\ b[8] < 128 THEN 0
  ELSE IF AllAre(b, 7, 255) /\ b[8] >= 240 THEN 0
  ELSE IF AllAre(b, 7, 255) /\ b[8] >= 128 THEN 1
  ELSE IF AllAre(b, 6, 0) /\ b[7] < 128 THEN 2
  ELSE IF AllAre(b, 6, 255) /\ b[7] >= 128 THEN 2
  ELSE IF AllAre(b, 4, 0) /\ b[5] < 128 THEN 4
  ELSE IF AllAre(b, 4, 255) /\ b[5] >= 128 THEN 4
  ELSE 8

Huge == 1073741824
Num(b) == CASE Len(b) = 1 -> b[1]
            [] Len(b) = 2 -> b[1] * 256 + b[2]
            [] OTHER -> IF b[1] >= 64 THEN Huge ELSE ((b[1] * 256 + b[2]) * 256 + b[3]) * 256 + b[4]

(* smallest number of size bytes (0: in the marker) *)
SizeClass(n, has32) == IF n <= 15 THEN 0 ELSE IF n <= 255 THEN 1 ELSE IF n <= 65535 THEN 2 ELSE 4

(* type and size bytes of a marker: <<type, number of size bytes>> *)
SizeMarker(m) ==
  CASE m = 208 -> <<"str", 1>> [] m = 209 -> <<"str", 2>> [] m = 210 -> <<"str", 4>>
    [] m = 212 -> <<"list", 1>> [] m = 213 -> <<"list", 2>> [] m = 214 -> <<"list", 4>>
    [] m = 216 -> <<"map", 1>> [] m = 217 -> <<"map", 2>> [] m = 218 -> <<"map", 4>>
    [] m = 220 -> <<"struct", 1>> [] m = 221 -> <<"struct", 2>>
    [] m \in 128..143 -> <<"str", 0>> [] m \in 144..159 -> <<"list", 0>>
    [] m \in 160..175 -> <<"map", 0>> [] m \in 176..191 -> <<"struct", 0>>
    [] OTHER -> <<"none", 0>>

(* single bytes that are complete values *)
Single(m) == m \in 0..127 \/ m \in 240..255 \/ m \in {192, 194, 195, 128, 144, 160}
SingleVal(m) == CASE m = 192 -> Nil [] m = 194 -> Bool(0) [] m = 195 -> Bool(1)
                  [] m = 128 -> Str(<<>>) [] m = 144 -> List(<<>>) [] m = 160 -> Map({})
                  [] OTHER -> Int64(Ext(<<m>>))

Same(a, b) == a.t = b.t /\ a = b

AddElem(acc, v, n) == IF acc # <<>> /\ Same(acc[Len(acc)][1], v)
                      THEN [acc EXCEPT ![Len(acc)] = <<v, @[2] + n>>]
                      ELSE Append(acc, <<v, n>>)

AllElems(l, P(_)) == \A j \in 1..Len(l) : P(l[j][1])

IsInt(v) == v.t = "int"
IsStr(v) == v.t = "str"
IsList(v) == v.t = "list"
IsMap(v) == v.t = "map"

NodeSig == 78   RelSig == 82   PathSig == 80   URelSig == 114
RecordSig == 113   FailureSig == 127   SuccessSig == 112
(* messages without fields: ignored, ack failure, discard, pull, reset *)
BareSigs == {126, 14, 47, 63, 15}

IsNode(v) == v.t = "struct" /\ v.g = NodeSig
IsURel(v) == v.t = "struct" /\ v.g = URelSig
StrList(v) == IsList(v) /\ AllElems(v.l, IsStr)

(* the structures the driver knows, with well-typed fields *)
Known(g, h) ==
  CASE g = NodeSig -> Len(h) = 3 /\ IsInt(h[1]) /\ StrList(h[2]) /\ IsMap(h[3])
    [] g = RelSig -> Len(h) = 5 /\ IsInt(h[1]) /\ IsInt(h[2]) /\ IsInt(h[3]) /\ IsStr(h[4]) /\ IsMap(h[5])
    [] g = URelSig -> Len(h) = 3 /\ IsInt(h[1]) /\ IsStr(h[2]) /\ IsMap(h[3])
    [] g = PathSig -> /\ Len(h) = 3 /\ IsList(h[1]) /\ AllElems(h[1].l, IsNode)
                      /\ IsList(h[2]) /\ AllElems(h[2].l, IsURel)
                      /\ IsList(h[3]) /\ AllElems(h[3].l, IsInt)
    [] g = RecordSig -> Len(h) = 1 /\ IsList(h[1])
    [] g \in {FailureSig, SuccessSig} -> Len(h) = 1 /\ IsMap(h[1])
    [] g \in BareSigs -> TRUE
    [] OTHER -> FALSE

(* Dec(r, p, strict): the value at position p of rope r.  strict: only the *)
(* structures the driver knows are values.                                 *)
RECURSIVE Dec(_, _, _), DecElems(_, _, _, _, _, _, _), DecPairs(_, _, _, _, _, _, _), DecFields(_, _, _, _, _, _, _)

DecElems(r, p, strict, n, acc, min, dup) ==
  IF n = 0 THEN Ok(List(acc), p, min, dup)
  ELSE IF p.left = 0 THEN Err
  ELSE LET m == ByteAt(r, p) IN
       IF Single(m)
       THEN LET k == IF n < RunLeft(r, p) THEN n ELSE RunLeft(r, p)
            IN DecElems(r, Adv(r, p, k), strict, n - k, AddElem(acc, SingleVal(m), k), min, dup)
       ELSE LET x == Dec(r, p, strict) IN
            IF ~x.ok THEN Err
            ELSE DecElems(r, x.p, strict, n - 1, AddElem(acc, x.v, 1), min /\ x.min, dup \/ x.dup)

DecPairs(r, p, strict, n, acc, min, dup) ==
  IF n = 0 THEN Ok(Map(acc), p, min, dup)
  ELSE LET k == Dec(r, p, strict) IN
       IF ~k.ok THEN Err
       ELSE IF k.v.t # "str" THEN Err
       ELSE LET x == Dec(r, k.p, strict) IN
            IF ~x.ok THEN Err
            ELSE LET old == {e \in acc : e[1] = k.v.s}
                 IN DecPairs(r, x.p, strict, n - 1, (acc \ old) \cup {<<k.v.s, x.v>>}, min /\ k.min /\ x.min,
                             dup \/ x.dup \/ old # {})

DecFields(r, p, strict, n, acc, min, dup) ==
  IF n = 0 THEN Ok(acc, p, min, dup)
  ELSE LET x == Dec(r, p, strict) IN
       IF ~x.ok THEN Err ELSE DecFields(r, x.p, strict, n - 1, Append(acc, x.v), min /\ x.min, dup \/ x.dup)

Dec(r, p, strict) ==
  IF p.left = 0 THEN Err
  ELSE
  LET m == ByteAt(r, p)
      q == Adv(r, p, 1)
      w == CASE m = 200 -> 1 [] m = 201 -> 2 [] m = 202 -> 4 [] m \in {193, 203} -> 8 [] OTHER -> 0
      sm == SizeMarker(m)
  IN
  IF Single(m) THEN Ok(SingleVal(m), q, TRUE, FALSE)
  ELSE IF w > 0 THEN
       IF q.left < w THEN Err
       ELSE LET b == Bytes(r, q, w) IN
            IF m = 193 THEN Ok([t |-> "float", f |-> b], Adv(r, q, w), TRUE, FALSE)
            ELSE Ok(Int64(Ext(b)), Adv(r, q, w), IntClass(Ext(b)) = w, FALSE)
  ELSE IF sm[1] = "none" THEN Err
  ELSE IF q.left < sm[2] THEN Err
  ELSE
  LET n == IF sm[2] = 0 THEN m % 16 ELSE Num(Bytes(r, q, sm[2]))
      a == Adv(r, q, sm[2])
      small == SizeClass(n, TRUE) = sm[2]
  IN
  CASE sm[1] = "str" -> IF n > a.left THEN Err ELSE Ok(Str(Slice(r, a, n)), Adv(r, a, n), small, FALSE)
    [] sm[1] = "list" -> IF n > a.left THEN Err ELSE DecElems(r, a, strict, n, <<>>, small, FALSE)
    [] sm[1] = "map" -> IF n > a.left THEN Err ELSE DecPairs(r, a, strict, n, {}, small, FALSE)
    [] OTHER -> IF a.left < 1 THEN Err
                ELSE LET g == ByteAt(r, a)
                         x == IF n > a.left - 1 THEN Err ELSE DecFields(r, Adv(r, a, 1), strict, n, <<>>, small, FALSE)
                     IN IF ~x.ok THEN Err
                        ELSE IF strict /\ ~Known(g, x.v) THEN Err
                        ELSE Ok(Struct(g, IF strict /\ g \in BareSigs THEN <<>> ELSE x.v), x.p, x.min, x.dup)

-----------------------------------------------------------------------------
(* Encoding, for values without maps (whose entries have no fixed order)   *)

SizeBytes(n, w) == CASE w = 0 -> <<>> [] w = 1 -> <<n>> [] w = 2 -> <<n \div 256, n % 256>>
                     [] OTHER -> <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

RECURSIVE Rope(_)
Rope(b) == IF b = <<>> THEN <<>> ELSE Cat(<<<<Head(b), 1>>>>, Rope(Tail(b)))

Head1(n, tiny, m8) ==
  LET w == SizeClass(n, TRUE)
  IN IF w = 0 THEN <<tiny + n>> ELSE <<m8 + (CASE w = 1 -> 0 [] w = 2 -> 1 [] OTHER -> 2)>> \o SizeBytes(n, w)

RECURSIVE RepeatRope(_, _)
RepeatRope(r, n) == IF n = 0 THEN <<>>
                    ELSE IF Len(r) = 1 THEN <<<<r[1][1], r[1][2] * n>>>>
                    ELSE Cat(r, RepeatRope(r, n - 1))

RECURSIVE Enc(_), EncElems(_, _), EncFields(_, _), ListLen(_, _)
ListLen(l, k) == IF k > Len(l) THEN 0 ELSE l[k][2] + ListLen(l, k + 1)
EncElems(l, k) == IF k > Len(l) THEN <<>> ELSE Cat(RepeatRope(Enc(l[k][1]), l[k][2]), EncElems(l, k + 1))
EncFields(h, k) == IF k > Len(h) THEN <<>> ELSE Cat(Enc(h[k]), EncFields(h, k + 1))
Enc(v) ==
  CASE v.t = "nil" -> Rope(<<192>>)
    [] v.t = "bool" -> Rope(<<194 + v.o>>)
    [] v.t = "int" -> LET w == IntClass(v.i)
                      IN Rope(IF w = 0 THEN <<v.i[8]>>
                              ELSE <<(CASE w = 1 -> 200 [] w = 2 -> 201 [] w = 4 -> 202 [] OTHER -> 203)>>
                                   \o SubSeq(v.i, 9 - w, 8))
    [] v.t = "float" -> Rope(<<193>> \o v.f)
    [] v.t = "str" -> Cat(Rope(Head1(RopeSize(v.s), 128, 208)), v.s)
    [] v.t = "list" -> Cat(Rope(Head1(ListLen(v.l, 1), 144, 212)), EncElems(v.l, 1))
    [] v.t = "struct" -> Cat(Rope(Head1(Len(v.h), 176, 220) \o <<v.g>>), EncFields(v.h, 1))
    [] OTHER -> Rope(<<160>>)       \* the empty map

-----------------------------------------------------------------------------
(* Chunking.  Stream(w): the messages in w, each with its bytes and the     *)
(* lengths of its chunks, and whether nothing else is in w.  (A fold and not *)
(* a recursion, which TLC evaluates in quadratic time.)                      *)

UnframeStep(x, st) ==
  IF st.done THEN st
  ELSE IF st.p.left < 2 THEN [st EXCEPT !.done = TRUE, !.whole = (st.p.left = 0 /\ st.lens = <<>>)]
  ELSE LET n == Num(Bytes(x, st.p, 2))
           q == Adv(x, st.p, 2)
       IN IF n = 0 THEN [st EXCEPT !.p = q, !.msgs = Append(@, [b |-> st.acc, lens |-> st.lens]), !.acc = <<>>, !.lens = <<>>]
          ELSE IF q.left < n THEN [st EXCEPT !.done = TRUE]
          ELSE [st EXCEPT !.p = Adv(x, q, n), !.acc = Cat(@, Slice(x, q, n)), !.lens = Append(@, n)]

Stream(w) ==
  LET x == Index(w)
      n == RopeSize(w) \div 2 + 1
  IN FoldLeft(LAMBDA st, j : UnframeStep(x, st),
              [p |-> Start0(x), acc |-> <<>>, lens |-> <<>>, msgs |-> <<>>, whole |-> FALSE, done |-> FALSE],
              [j \in 1..n |-> j])

(* the value of a complete message; rest: bytes after the value *)
DecMsg(b, strict) == LET r == Index(b)
                         x == Dec(r, Start0(r), strict)
                     IN IF ~x.ok THEN Err ELSE [ok |-> TRUE, v |-> x.v, min |-> x.min, dup |-> x.dup, rest |-> x.p.left]
=============================================================================
