----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Checks what the driver's encoder, decoder and connections really did    *)
(* (records written by the harness) against PackStream.                    *)
(*                                                                         *)
(* Prop selects the property judged:                                       *)
(*  C13 what was encoded decodes to the same value                         *)
(*  C14 the bytes written are the shortest encoding of the value           *)
(*  C15 what was decoded is the meaning of the bytes, or an error          *)
(*  C16 what was written is well-formed chunks, nothing for refused values *)
(*  C17 what was decoded doesn't depend on chunks and reads                *)
(***************************************************************************)
EXTENDS PackStream, TLC, Json, IOUtils

CONSTANT Prop

Records == JsonDeserialize(IOEnv.TRACES)

VARIABLE i

-----------------------------------------------------------------------------
(* values as the harness writes them; a map is a sequence of pairs *)
RECURSIVE Norm(_)
Norm(v) ==
  CASE v.t = "list" -> List([j \in 1..Len(v.l) |-> <<Norm(v.l[j][1]), v.l[j][2]>>])
    [] v.t = "map" -> Map({<<v.m[j][1], Norm(v.m[j][2])>> : j \in 1..Len(v.m)})
    [] v.t = "struct" -> Struct(v.g, [j \in 1..Len(v.h) |-> Norm(v.h[j])])
    [] OTHER -> v

IsErr(r) == r.t = "error"
Equal(a, b) == a.t = b.t /\ a = b
IsValue(r, v) == ~IsErr(r) /\ r.t \notin {"panic", "hang", "other"} /\ Equal(Norm(r), v)

(* chunk lengths: never empty, within what a header can say, and within the *)
(* configured size                                                          *)
ChunksOK(lens, cs, lim) == \A j \in 1..Len(lens) : lens[j] \in 1..65535 /\ (lim => lens[j] <= cs)

Shortest(b, v) == LET x == DecMsg(b, FALSE) IN x.ok /\ x.min /\ ~x.dup /\ x.rest = 0 /\ Equal(x.v, v)

(* what decoding a message may give *)
Decoded(b, r) ==
  LET x == DecMsg(b, TRUE) IN
  IF ~x.ok THEN IsErr(r)
  ELSE \/ IsValue(r, x.v)
       \/ (x.dup \/ x.rest > 0) /\ IsErr(r)

-----------------------------------------------------------------------------
(* seq: one encoder given several values; items: [bad, d, err, w0, multi]  *)
(* w: all it wrote; rs: what decoding w gave; w0: the item encoded alone   *)
(* in chunks of the maximum size; multi: order of its map entries is free  *)
Good(R) == SelectSeq(R.items, LAMBDA it : ~it.bad)

SeqC13(R) == LET g == Good(R) IN
  \A j \in 1..Len(g) : LET v == Norm(g[j].d) IN
     g[j].std => j <= Len(R.rs) /\ IsValue(R.rs[j], v)

SeqC14(R) == LET g == Good(R)  s == Stream(R.w) IN
  /\ \A j \in 1..Len(R.items) : R.items[j].err = R.items[j].bad
  /\ s.whole /\ Len(s.msgs) = Len(g)
  /\ \A j \in 1..Len(g) : Shortest(s.msgs[j].b, Norm(g[j].d))

Alone(it) == LET s == Stream(it.w0) IN IF s.whole /\ Len(s.msgs) = 1 THEN s.msgs[1].b ELSE <<<<-1, 1>>>>

SeqC16(R) == LET s == Stream(R.w)
                 g == SelectSeq(R.items, LAMBDA it : ~it.err) IN
  /\ s.whole /\ Len(s.msgs) = Len(g)
  /\ \A j \in 1..Len(g) :
       /\ ChunksOK(s.msgs[j].lens, R.cs, R.lim)
       /\ IF g[j].multi THEN RopeSize(s.msgs[j].b) = RopeSize(Alone(g[j]))
          ELSE s.msgs[j].b = Alone(g[j])

(* live: what a connection wrote after the handshake. runs: the parameters *)
(* given to the calls that were not refused                                *)
ReqArity(g) == CASE g \in {1, 16} -> 2 [] g \in {14, 15, 47, 63} -> 0 [] OTHER -> -1

RunsOf(vs) == SelectSeq(vs, LAMBDA v : v.g = 16)

LiveC14(R) == LET s == Stream(R.w)
                  x == [j \in 1..Len(s.msgs) |-> DecMsg(s.msgs[j].b, FALSE)]
              IN /\ s.whole
                 /\ \A j \in 1..Len(x) : /\ x[j].ok /\ x[j].min /\ ~x[j].dup /\ x[j].rest = 0
                                         /\ x[j].v.t = "struct" /\ Len(x[j].v.h) = ReqArity(x[j].v.g)
                 /\ LET runs == RunsOf([j \in 1..Len(x) |-> x[j].v])
                    IN /\ Len(runs) = Len(R.runs)
                       /\ \A j \in 1..Len(runs) : Equal(runs[j], Norm(R.runs[j]))

(* the values a connection sent and received back *)
LiveC13(R) == Len(R.back) = Len(R.runs)
              /\ \A j \in 1..Len(R.back) : IsValue(R.back[j], Norm(R.runs[j].h[2]))

LiveC16(R) == LET s == Stream(R.w) IN
  /\ s.whole
  /\ \A j \in 1..Len(s.msgs) : ChunksOK(s.msgs[j].lens, IF j = 1 THEN 65535 ELSE R.cs, R.lim \/ RopeSize(s.msgs[j].b) = 2)
  /\ Cardinality({j \in 1..Len(s.msgs) : LET b == s.msgs[j].b IN
          RopeSize(b) >= 2 /\ Slice(Index(b), Start0(Index(b)), 2) = <<<<178, 1>>, <<16, 1>>>>}) = Len(R.runs)
  /\ ~R.hurt

(* dec: one message given to the decoder *)
DecC15(R) == Decoded(R.b, R.r) /\ R.alloc <= 1048576 + 2000 * RopeSize(R.b)

(* raw: bytes given to the decoder as they are. Without a complete message *)
(* there is no value; of several, the first one is what they are           *)
RawC15(R) == LET s == Stream(R.w) IN
             /\ IF Len(s.msgs) = 0 THEN IsErr(R.r) ELSE Decoded(s.msgs[1].b, R.r)
             /\ R.alloc <= 1048576 + 2000 * RopeSize(R.w)

(* nest: lists n deep; r: depth of the result, -1 for an error. Any depth   *)
(* real data has must be exact; the limit against exhaustion may be anywhere *)
(* above.                                                                    *)
NestC15(R) == /\ R.r = R.n \/ (R.n > 1000 /\ R.r = -1)
              /\ R.alloc \div 5000 <= 1000 + R.n

(* big: n entries; head: first bytes of the message; count: entries decoded *)
BigHead(R) == CASE R.kind = "map" -> Head1(R.n, 160, 216)
                [] R.kind = "list" -> Head1(R.n, 144, 212)
                [] OTHER -> Head1(R.n, 176, 220) \o <<R.g>>
BigC14(R) == IF R.bad THEN R.err
             ELSE ~R.err /\ R.head = BigHead(R) /\ R.len = Len(BigHead(R)) + R.body
BigC13(R) == R.bad \/ R.kind = "struct" \/ (R.count = R.n /\ R.same)

(* stream: what the decoder gave for a delivery of w; alone: for each of   *)
(* its messages by itself                                                  *)
StreamC17(R) ==
  LET s == Stream(R.w) IN
  /\ Len(s.msgs) = Len(R.alone)
  /\ Len(R.rs) = Len(R.alone) + (IF R.live THEN 0 ELSE 1)
  /\ \A j \in 1..Len(R.alone) : s.msgs[j].b = R.payload[j] /\ Equal(R.rs[j], R.alone[j])
  /\ R.live \/ IsErr(R.rs[Len(R.rs)])

Accept(R) ==
  CASE R.k = "seq" -> (CASE Prop = "C13" -> SeqC13(R) [] Prop = "C14" -> SeqC14(R) [] Prop = "C16" -> SeqC16(R) [] OTHER -> TRUE)
    [] R.k = "live" -> (CASE Prop = "C13" -> LiveC13(R) [] Prop = "C14" -> LiveC14(R) [] Prop = "C16" -> LiveC16(R) [] OTHER -> TRUE)
    [] R.k = "dec" -> Prop = "C15" => DecC15(R)
    [] R.k = "raw" -> Prop = "C15" => RawC15(R)
    [] R.k = "nest" -> Prop = "C15" => NestC15(R)
    [] R.k = "big" -> (CASE Prop = "C13" -> BigC13(R) [] Prop = "C14" -> BigC14(R) [] OTHER -> TRUE)
    [] R.k = "stream" -> Prop = "C17" => StreamC17(R)
    [] R.k = "open" -> Prop = "C17" => R.ok
    [] OTHER -> FALSE

Init == i = 1
Next == /\ i <= Len(Records)
        /\ IF Accept(Records[i]) THEN TRUE ELSE PrintT(<<"REJECTED", i>>)
        /\ i' = i + 1
Spec == Init /\ [][Next]_i
=============================================================================
