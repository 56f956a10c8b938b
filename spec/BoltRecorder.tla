---------------------------- MODULE BoltRecorder ----------------------------
(***************************************************************************)
(* Recording a session and replaying it. A session is a history: the bytes *)
(* read and written, in their order, and the errors that came in between.  *)
(* How they were cut into calls does not matter to what is replayed, but a *)
(* client that makes the calls it made before must not be refused.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Defects  \* deliberate mistakes, to see the properties fail

VARIABLES mode,   \* "rec", "saved", "play", "off" (deviated), "done"
          hist,   \* <<[w, b]>>: w for written; b is a byte, or -1 for an error
          ends,   \* where in hist calls of the client ended
          wire,   \* the bytes that the server sent and that it got
          pos,    \* replay: how much of hist is consumed
          got,    \* replay: the bytes read
          told    \* replay: whether the client has been told of a deviation

vars == <<mode, hist, ends, wire, pos, got, told>>

Err == -1
Items(w, bs, err) == [i \in 1..Len(bs) |-> [w |-> w, b |-> bs[i]]] \o (IF err THEN <<[w |-> w, b |-> Err]>> ELSE <<>>)
Bytes(h, w) == LET s == SelectSeq(h, LAMBDA x : x.w = w /\ x.b # Err) IN [i \in 1..Len(s) |-> s[i].b]
NoWire == [sent |-> <<>>, got |-> <<>>]

Start == mode = "rec" /\ hist = <<>> /\ ends = {0} /\ wire = NoWire /\ pos = 0 /\ got = <<>> /\ told = FALSE

-----------------------------------------------------------------------------
(* Recording: the connection is used as if nothing was in between *)
Rec(w, bs, err) ==
  /\ mode = "rec"
  /\ hist' = hist \o Items(w, bs, err)
  /\ ends' = ends \union {Len(hist')}
  /\ UNCHANGED <<mode, wire, pos, got, told>>
RecRead(n, bs, err) == Len(bs) <= n /\ (bs # <<>> \/ err) /\ Rec(FALSE, bs, err)
RecWrite(bs, k, err) == k <= Len(bs) /\ (k < Len(bs) => err) /\ Rec(TRUE, SubSeq(bs, 1, k), err)

(* sent, arrived: what the server knows *)
Save(sent, arrived, cut) ==
  /\ mode = "rec"
  /\ cut \/ Len(arrived) = Len(Bytes(hist, TRUE))
  /\ IsPrefix(Bytes(hist, FALSE), sent)
  /\ IsPrefix(arrived, Bytes(hist, TRUE))
  /\ wire' = [sent |-> sent, got |-> arrived]
  /\ mode' = "saved"
  /\ UNCHANGED <<hist, ends, pos, got, told>>

-----------------------------------------------------------------------------
(* Replay *)
Load == /\ mode \in {"saved", "done"} /\ mode' = "play" /\ pos' = 0 /\ got' = <<>> /\ told' = FALSE
        /\ UNCHANGED <<hist, ends, wire>>

(* the bytes that can be had from here in direction w, up to an error *)
RECURSIVE RunFrom(_, _)
RunFrom(p, w) == IF p = Len(hist) THEN p
                 ELSE IF hist[p + 1].w # w \/ hist[p + 1].b = Err THEN p ELSE RunFrom(p + 1, w)
Run(w) == RunFrom(pos, w) - pos
ErrAt(p, w) == IF p >= Len(hist) THEN FALSE ELSE hist[p + 1].w = w /\ hist[p + 1].b = Err
Next1(w) == IF pos = Len(hist) THEN FALSE ELSE hist[pos + 1].w = w
Piece(k) == [i \in 1..k |-> hist[pos + i].b]

Deviates == /\ mode' = "off" /\ told' = TRUE /\ UNCHANGED <<hist, ends, wire, pos, got>>
Goes(k, bs) == /\ pos' = pos + k /\ got' = got \o bs /\ UNCHANGED <<mode, hist, ends, wire, told>>

PlayRead(n, bs, err) ==
  /\ mode = "play" /\ n > 0
  /\ IF ErrAt(pos, FALSE) THEN bs = <<>> /\ err /\ Goes(1, <<>>)
     ELSE IF ~Next1(FALSE) /\ ~("mixed" \in Defects /\ pos < Len(hist)) THEN bs = <<>> /\ err /\ Deviates
     ELSE /\ Len(bs) >= 1 /\ Len(bs) <= n
          /\ Len(bs) <= IF "mixed" \in Defects THEN Len(hist) - pos ELSE Run(FALSE)
          /\ bs = Piece(Len(bs))
          /\ IF err THEN ErrAt(pos + Len(bs), FALSE) /\ Goes(Len(bs) + 1, bs) ELSE Goes(Len(bs), bs)

(* a write of n bytes, k of them taken *)
PlayWrite(n, k, err) ==
  /\ mode = "play" /\ n > 0
  /\ IF ErrAt(pos, TRUE) THEN k = 0 /\ err /\ Goes(1, <<>>)
     ELSE IF ~Next1(TRUE) THEN k = 0 /\ err /\ Deviates
     ELSE LET run == Run(TRUE) IN
          IF n > run
          THEN IF ErrAt(pos + run, TRUE)
               THEN /\ err
                    /\ \/ k = run /\ Goes(run + 1, <<>>)
                       \* or it is refused for being more than a call wrote
                       \/ k <= run /\ (\E e \in ends : pos < e /\ e <= pos + run) /\ Deviates
               ELSE err /\ k <= run /\ Deviates
          ELSE IF ~err THEN k = n /\ Goes(n, <<>>)
          ELSE \/ k = n /\ ErrAt(pos + n, TRUE) /\ Goes(n + 1, <<>>)
               \* more than what a call wrote when it was recorded may be refused
               \/ k < n /\ (\E e \in ends : pos < e /\ e < pos + n) /\ Deviates

(* what is left over *)
Left == SelectSeq(SubSeq(hist, pos + 1, Len(hist)), LAMBDA x : x.b # Err) # <<>>
PlayClose(err) ==
  /\ mode = "play"
  /\ IF Left /\ "noleft" \notin Defects THEN err ELSE err => pos < Len(hist)
  /\ told' = err /\ mode' = "done"
  /\ UNCHANGED <<hist, ends, wire, pos, got>>

(* after a deviation nothing is promised, except that calls return *)
OffCall == mode = "off" /\ UNCHANGED vars
OffClose == mode = "off" /\ mode' = "done" /\ UNCHANGED <<hist, ends, wire, pos, got, told>>

-----------------------------------------------------------------------------
(* C25: the bytes read are those read before, where they were among the writes *)
Faithful == mode \in {"play", "done", "off"} => got = Bytes(SubSeq(hist, 1, pos), FALSE)
(* C25: a session that was not followed to its end doesn't go unnoticed        *)
Noticed == mode = "done" /\ Left => told
(* recording is transparent *)
Transparent == mode # "rec" => IsPrefix(Bytes(hist, FALSE), wire.sent) /\ IsPrefix(wire.got, Bytes(hist, TRUE))
=============================================================================
