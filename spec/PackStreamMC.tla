---------------------------- MODULE PackStreamMC ----------------------------
(* The specification itself: encoding and decoding are inverse, encodings  *)
(* are prefix free and in the smallest form, decoding is total.            *)
EXTENDS PackStream, TLC

CONSTANTS Alphabet,   \* bytes of the enumerated byte strings
          MaxLen,     \* their length
          Sizes       \* sizes of strings, lists and structures

VARIABLES kind, x
vars == <<kind, x>>

Ints8 == {<<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,127>>, <<0,0,0,0,0,0,0,128>>, <<0,0,0,0,0,0,0,255>>, <<0,0,0,0,0,0,1,0>>,
          <<0,0,0,0,0,0,127,255>>, <<0,0,0,0,0,0,128,0>>, <<0,0,0,0,127,255,255,255>>, <<0,0,0,0,128,0,0,0>>,
          <<127,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,255>>, <<255,255,255,255,255,255,255,240>>,
          <<255,255,255,255,255,255,255,239>>, <<255,255,255,255,255,255,255,128>>, <<255,255,255,255,255,255,255,127>>,
          <<255,255,255,255,255,255,128,0>>, <<255,255,255,255,255,255,127,255>>, <<255,255,255,255,128,0,0,0>>,
          <<255,255,255,255,127,255,255,255>>, <<128,0,0,0,0,0,0,0>>}

Leaves == {Nil, Bool(0), Bool(1)} \cup {Int64(b) : b \in Ints8}
          \cup {[t |-> "float", f |-> <<63,240,0,0,0,0,0,0>>]}
          \cup {Str(IF n = 0 THEN <<>> ELSE <<<<97, n>>>>) : n \in Sizes}

RECURSIVE Fill(_, _)
Fill(v, n) == IF n = 0 THEN <<>> ELSE <<v>> \o Fill(v, n - 1)

Lists == {List(IF n = 0 THEN <<>> ELSE <<<<v, n>>>>) : v \in {Nil, Int64(<<0,0,0,0,0,0,0,1>>), Bool(1)}, n \in Sizes}
         \cup {List(<<<<a, 1>>, <<b, 1>>>>) : <<a, b>> \in {<<a, b>> \in Leaves \X Leaves : ~Same(a, b)}}
Structs == {Struct(g, Fill(Nil, n)) : g \in {1, 78, 255}, n \in {k \in Sizes : k <= 300}}
Values == Leaves \cup Lists \cup Structs \cup {List(<<<<v, 1>>>>) : v \in Lists}

Strings == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}

Init == \/ kind = "value" /\ x \in Values
        \/ kind = "bytes" /\ x \in Strings
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

RoundTrip == kind = "value" =>
  LET e == Enc(x)
      d == DecMsg(e, FALSE)
  IN d.ok /\ d.v = x /\ d.min /\ ~d.dup /\ d.rest = 0

(* a proper prefix never is a value *)
PrefixFree == kind = "value" =>
  LET e == Enc(x)
      n == RopeSize(e)
  IN \A k \in {j \in {0, 1, 2, 3, 4, n - 2, n - 1} : j >= 0 /\ j < n} : ~DecMsg(Slice(Index(e), Start0(Index(e)), k), FALSE).ok

HasMap == kind = "bytes" /\ \E j \in 1..Len(x) : x[j] \in 160..175 \/ x[j] \in 216..218

(* total; and what is in smallest form is the encoding of its value *)
Total == kind = "bytes" =>
  LET r == Rope(x)
      d == DecMsg(r, FALSE)
      s == DecMsg(r, TRUE)
  IN /\ d.ok \in BOOLEAN /\ (s.ok => d.ok)
     /\ (d.ok /\ d.min /\ d.rest = 0 /\ ~HasMap) => Enc(d.v) = r
     /\ (d.ok /\ ~d.min /\ d.rest = 0 /\ ~HasMap) => RopeSize(Enc(d.v)) < Len(x)
=============================================================================
