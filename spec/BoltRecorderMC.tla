--------------------------- MODULE BoltRecorderMC ---------------------------
(* BoltRecorder with every short session and every way to replay it; and the *)
(* recorder's own representation of a recording (events that end with the    *)
(* message), which must have room for every session.                         *)
EXTENDS BoltRecorder, TLC

CONSTANTS MaxItems, MaxCall

VARIABLE events   \* <<[w, n, err, full]>>: bytes of an event, an error at its end, whether it is complete

mvars == <<vars, events>>

Byte == {0, 7}
Strings == UNION {[1..n -> Byte] : n \in 1..MaxCall}
Texts == Strings \union {<<>>}

(* the representation: bytes go into the last event unless that is complete or of the other direction *)
Fresh(w) == [w |-> w, b |-> <<>>, err |-> FALSE, full |-> FALSE]
Tail2(b) == Len(b) >= 2 /\ b[Len(b)] = 0 /\ b[Len(b) - 1] = 0
OpenEv(evs, w) == IF evs = <<>> THEN <<Fresh(w)>>
                  ELSE IF evs[Len(evs)].full \/ evs[Len(evs)].w # w THEN Append(evs, Fresh(w)) ELSE evs
PutBytes(evs, w, bs) == IF bs = <<>> THEN evs
                        ELSE LET o == OpenEv(evs, w)
                                 b == o[Len(o)].b \o bs
                             IN [o EXCEPT ![Len(o)].b = b, ![Len(o)].full = Tail2(b)]
PutErr(evs, w, err) == IF ~err THEN evs ELSE LET o == OpenEv(evs, w) IN [o EXCEPT ![Len(o)].err = TRUE, ![Len(o)].full = TRUE]
Recorded(w, bs, err) == PutErr(PutBytes(events, w, bs), w, err)
Unfold == FoldLeft(LAMBDA acc, e : acc \o Items(e.w, e.b, e.err), <<>>, events)

Init == Start /\ events = <<>>

Room(k) == Len(hist) + k <= MaxItems

RecStep ==
  \/ \E bs \in Texts, err \in BOOLEAN :
       /\ Room(Len(bs) + (IF err THEN 1 ELSE 0))
       /\ RecRead(MaxCall, bs, err) /\ events' = Recorded(FALSE, bs, err)
  \/ \E bs \in Strings, k \in 0..MaxCall, err \in BOOLEAN :
       /\ k <= Len(bs) /\ Room(k + (IF err THEN 1 ELSE 0))
       /\ RecWrite(bs, k, err) /\ events' = Recorded(TRUE, SubSeq(bs, 1, k), err)

SaveStep == /\ \E more \in {<<>>, <<7>>} : Save(Bytes(hist, FALSE) \o more, Bytes(hist, TRUE), FALSE)
            /\ UNCHANGED events

PlayStep ==
  /\ \/ mode = "saved" /\ Load
     \/ \E n \in 1..MaxCall + 1, bs \in Texts, err \in BOOLEAN : PlayRead(n, bs, err)
     \/ \E n \in 1..MaxCall + 1, k \in 0..MaxCall + 1, err \in BOOLEAN : PlayWrite(n, k, err)
     \/ \E err \in BOOLEAN : PlayClose(err)
     \/ OffClose
  /\ UNCHANGED events

Next == RecStep \/ SaveStep \/ PlayStep
Spec == Init /\ [][Next]_mvars

(* nothing of the session is lost in its representation *)
Represented == Unfold = hist

(* the client that does again what it did is not told of a deviation: *)
(* from where a call ended, the same call is possible                 *)
Repeatable == mode = "play" /\ pos < Len(hist) /\ pos \in ends =>
  LET e == CHOOSE x \in ends : x > pos /\ \A y \in ends : y > pos => x <= y
      w == hist[pos + 1].w
      k == Len(Bytes(SubSeq(hist, pos + 1, e), w))
  IN \* bytes of the call are there in one piece
     /\ Run(w) >= k
     /\ hist[e].b = Err => ErrAt(pos + k, w)
=============================================================================
