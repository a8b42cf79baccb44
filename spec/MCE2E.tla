------------------------------- MODULE MCE2E --------------------------------
(* Both directions of one connection under every interleaving of queueing,  *)
(* draining, sending in pieces, delivery (repeated, early, altered) and      *)
(* taking; histories of length Depth are printed and replayed.               *)
EXTENDS E2E, Json, TLC
CONSTANTS Depth, EmitScripts, Lens, MaxMsgs

VARIABLES c, hist, sent, got
vars == <<c, hist, sent, got>>
D == {1, 2}
Init == c = [d \in D |-> Fresh] /\ hist = <<>> /\ sent = [d \in D |-> <<>>] /\ got = [d \in D |-> <<>>]

Step(d, x, op) == c' = [c EXCEPT ![d] = x] /\ hist' = Append(hist, op)

DoQueue(d) == /\ Len(sent[d]) < MaxMsgs
              /\ \E k \in Lens : LET m == [id |-> 10 * d + Len(sent[d]), len |-> k] IN
                   Step(d, Queue(c[d], m), <<1, d, k>>) /\ sent' = [sent EXCEPT ![d] = Append(@, m)]
              /\ UNCHANGED got
DoDrain(d) == c[d].q # <<>> /\ Step(d, Drain(c[d]), <<2, d>>) /\ UNCHANGED <<sent, got>>
DoSend(d) == \E k \in 1..Pending(c[d]) :
  Step(d, Send(c[d], k), <<3, d, k, Pending(c[d])>>) /\ UNCHANGED <<sent, got>>
DoDeliver(d) == \E i \in 0..Len(c[d].pk) : Step(d, Deliver(c[d], i), <<4, d, i>>) /\ UNCHANGED <<sent, got>>
DoTake(d) == /\ c[d].rx > 0
             /\ Step(d, Take(c[d]), <<5, d>>)
             /\ got' = [got EXCEPT ![d] = IF HasFrame(c[d]) THEN Append(@, NextMessage(c[d])) ELSE @]
             /\ UNCHANGED sent
Next == Len(hist) < Depth /\ \E d \in D : DoQueue(d) \/ DoDrain(d) \/ DoSend(d) \/ DoDeliver(d) \/ DoTake(d)
Spec == Init /\ [][Next]_vars

(* C22 *)
Prefix == \A d \in D : Len(got[d]) <= Len(sent[d]) /\ got[d] = SubSeq(sent[d], 1, Len(got[d]))
(* nothing is lost: what is not yet taken is still on its way *)
Everything == \A d \in D : got[d] \o SubSeq(c[d].out, c[d].n + 1, Len(c[d].out)) \o c[d].q = sent[d]
Done(d) == c[d].q = <<>> /\ Pending(c[d]) = 0 /\ c[d].in = Len(c[d].pk) /\ ~HasFrame(c[d])
Complete == \A d \in D : Done(d) => got[d] = sent[d]
OthersUntouched == [][ \A d \in D : c'[d] # c[d] => \A o \in D \ {d} : c'[o] = c[o] ]_vars
TakenStays == [][ \A d \in D : Len(got'[d]) >= Len(got[d]) /\ SubSeq(got'[d], 1, Len(got[d])) = got[d] ]_vars

(* Each direction behaves like Line.tla, whose guarantees are proved for every history. *)
RECURSIVE Upto(_, _)
Upto(s, i) == IF i = 0 THEN 0 ELSE s[i] + Upto(s, i - 1)
L(d) == INSTANCE Line WITH Message <- [id : 10..29, len : Lens], sent <- sent[d], got <- got[d], ready <- c[d].in,
  ends <- [i \in DOMAIN c[d].out |-> Upto([j \in DOMAIN c[d].out |-> c[d].out[j].len], i)],
  cuts <- [i \in DOMAIN c[d].pk |-> Upto(c[d].pk, i)]
Line1 == L(1)!LSpec
Line2 == L(2)!LSpec

View == <<c, sent, got, Len(hist)>>
Emit == (EmitScripts /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
