----------------------------- MODULE MCReader -------------------------------
(* All short histories of reads on small buffers: pieces are consecutive, in *)
(* order and never overlap, failures consume nothing, nothing passes the end.*)
(* Every history is also printed, to be replayed on the real reader.         *)
EXTENDS Reader, Json, TLC
CONSTANTS Depth, EmitScripts

Bufs == << <<>>, <<7>>, <<0>>, <<1, 65>>, <<2, 65>>, <<0, 1, 0>>, <<3, 1, 255>>, <<1, 195, 2, 65, 66>>, <<5, 1, 0, 0, 1, 65>>,
           <<0, 128, 22, 1, 0, 0, 9>>, <<0, 0, 254, 0, 0, 0, 0, 0, 254, 0, 0, 0>>, <<0, 0, 254, 2, 0, 0, 1>> >>
Starts == {0, 1, 2, 5, -1}
RawOps == {0, 1, 2, 3, 6, -1}
ValOps == <<"u8", "u16", "bool", "STR0_32", "Message">>
(* an operation is a number: 0..6 raw run, 9 huge run, 11.. value types *)
Ops == {0, 1, 2, 3, 6, 9} \cup { 10 + i : i \in DOMAIN ValOps }

VARIABLES b, start, pos, hist, pieces
vars == <<b, start, pos, hist, pieces>>

Init == /\ b \in DOMAIN Bufs /\ start \in Starts
        /\ pos = StartPos(Bufs[b], start) /\ hist = <<>> /\ pieces = <<>>

Outcome(op) == IF op < 10 THEN RawRead(Bufs[b], pos, IF op = 9 THEN -1 ELSE op) ELSE ValRead(ValOps[op - 10], Bufs[b], pos)

(* pieces: the byte ranges <<from, to>> handed out *)
Do(op) == LET o == Outcome(op) IN
  \E p \in o.next :
    /\ pos' = p
    /\ hist' = Append(hist, op)
    /\ pieces' = IF o.errs = {} THEN Append(pieces, <<pos, p>>) ELSE pieces
    /\ UNCHANGED <<b, start>>

Next == Len(hist) < Depth /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Consecutive == \A i, j \in DOMAIN pieces : i < j => pieces[i][2] <= pieces[j][1]
WithinBuffer == \A i \in DOMAIN pieces : pieces[i][1] >= StartPos(Bufs[b], start) /\ pieces[i][1] <= pieces[i][2] /\ pieces[i][2] <= Len(Bufs[b])
NeverBack == [][pos' >= pos]_vars
FailureKeeps == [][ (pos' # pos /\ Len(hist') > Len(hist) /\ hist'[Len(hist')] < 10) => pos' = pos + hist'[Len(hist')] ]_vars
(* a read that fits succeeds, whatever happened before *)
ShorterStillFits == pos < Len(Bufs[b]) => RawRead(Bufs[b], pos, 1).r = {"ok"}
(* The pieces are those of Pieces.tla, whose guarantees are proved for every buffer, offset and history. *)
P == INSTANCE Pieces WITH Size <- Len(Bufs[b]), From <- StartPos(Bufs[b], start), at <- pos, out <- pieces
PiecesOnly == P!PSpec
Emit == (EmitScripts /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(<<b, start>> \o hist))
=============================================================================
