-------------------------------- MODULE Line --------------------------------
(***************************************************************************)
(* One direction of a connection from end to end, with any number of       *)
(* messages, drains and packets.  Messages are queued (sent); a drain puts *)
(* all of them on the stream, where message i ends at byte ends[i]; packet *)
(* j carries the stream up to byte cuts[j]; the receiver has accepted the  *)
(* first ready packets and takes a message when all of its bytes are       *)
(* there.  MCE2E checks that the connections of E2E.tla behave like this   *)
(* module (Line1, Line2).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Message
VARIABLES sent, ends, cuts, ready, got
lvars == <<sent, ends, cuts, ready, got>>

Last(s) == IF Len(s) = 0 THEN 0 ELSE s[Len(s)]
Rx == IF ready = 0 THEN 0 ELSE cuts[ready]
Grows(s) == \A i, k \in 1..Len(s) : i < k => s[i] < s[k]

LInit == sent = <<>> /\ ends = <<>> /\ cuts = <<>> /\ ready = 0 /\ got = <<>>
LQueue == /\ \E m \in Message : sent' = Append(sent, m)
          /\ UNCHANGED <<ends, cuts, ready, got>>
LDrain == /\ ends' \in Seq(Nat) /\ Len(ends') = Len(sent) /\ Len(ends) <= Len(sent)
          /\ \A i \in 1..Len(ends) : ends'[i] = ends[i]
          /\ Grows(ends') /\ \A i \in 1..Len(ends') : ends'[i] > 0
          /\ UNCHANGED <<sent, cuts, ready, got>>
LSend == /\ \E to \in (Last(cuts) + 1)..Last(ends) : cuts' = Append(cuts, to)
         /\ UNCHANGED <<sent, ends, ready, got>>
LDeliver == ready < Len(cuts) /\ ready' = ready + 1 /\ UNCHANGED <<sent, ends, cuts, got>>
CanTake == Len(got) < Len(ends) /\ ends[Len(got) + 1] <= Rx
LTake == CanTake /\ got' = Append(got, sent[Len(got) + 1]) /\ UNCHANGED <<sent, ends, cuts, ready>>
LNext == LQueue \/ LDrain \/ LSend \/ LDeliver \/ LTake
LSpec == LInit /\ [][LNext]_lvars

LType == /\ sent \in Seq(Message) /\ got \in Seq(Message) /\ ends \in Seq(Nat) /\ cuts \in Seq(Nat)
         /\ ready \in 0..Len(cuts)
Ordered == /\ Grows(ends) /\ Grows(cuts) /\ \A i \in 1..Len(ends) : ends[i] > 0
           /\ \A j \in 1..Len(cuts) : cuts[j] <= Last(ends)
           /\ Len(ends) <= Len(sent)
(* the messages taken are the beginning of those queued, in order, each once, and none early *)
Prefix == /\ Len(got) <= Len(ends)
          /\ \A i \in 1..Len(got) : got[i] = sent[i] /\ ends[i] <= Rx
(* when everything has been drained, sent and delivered, and nothing can be taken, all was taken *)
Everything == (Len(ends) = Len(sent) /\ Last(cuts) = Last(ends) /\ ready = Len(cuts) /\ ~CanTake) => got = sent
=============================================================================
