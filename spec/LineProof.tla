----------------------------- MODULE LineProof ------------------------------
(* The guarantees of Line.tla for histories of every length (TLAPS). *)
EXTENDS Line, TLAPS

Ind == LType /\ Ordered /\ Prefix

LEMMA First == LInit => Ind
BY DEF LInit, Ind, LType, Ordered, Prefix, Grows, Last

LEMMA StepQueue == ASSUME Ind, LQueue PROVE Ind'
<1> USE DEF Ind, LType, Ordered, Prefix
<1>1. PICK m \in Message : sent' = Append(sent, m) BY DEF LQueue
<1>2. UNCHANGED <<ends, cuts, ready, got>> BY DEF LQueue
<1>3. Rx' = Rx /\ Last(ends)' = Last(ends) /\ Grows(ends)' = Grows(ends) /\ Grows(cuts)' = Grows(cuts) BY <1>2 DEF Rx, Last, Grows
<1>4. Len(sent') = Len(sent) + 1 /\ sent' \in Seq(Message) /\ \A i \in 1..Len(sent) : sent'[i] = sent[i] BY <1>1
<1>5. Len(ends) \in Nat /\ Len(got) \in Nat /\ Len(sent) \in Nat OBVIOUS
<1>6. Ordered' BY <1>2, <1>3, <1>4, <1>5
<1>7. Prefix' BY <1>2, <1>3, <1>4, <1>5
<1> QED BY <1>2, <1>4, <1>6, <1>7

LEMMA LastGrows == ASSUME NEW s \in Seq(Nat), NEW t \in Seq(Nat), Grows(t), \A i \in 1..Len(t) : t[i] > 0,
                          Len(s) <= Len(t), \A i \in 1..Len(s) : t[i] = s[i]
                   PROVE Last(s) <= Last(t)
<1>0. Len(s) \in Nat /\ Len(t) \in Nat OBVIOUS
<1>1. CASE Len(s) = 0 BY <1>1, <1>0 DEF Last
<1>2. CASE Len(s) # 0
  <2>1. Len(s) \in 1..Len(t) /\ Len(t) \in 1..Len(t) /\ Len(s) \in 1..Len(s) BY <1>0, <1>2
  <2>2. Last(s) = s[Len(s)] /\ Last(t) = t[Len(t)] BY <1>0, <1>2, <2>1 DEF Last
  <2>3. t[Len(s)] = s[Len(s)] BY <2>1
  <2>4. t[Len(s)] \in Nat /\ t[Len(t)] \in Nat BY <2>1
  <2>5. Len(s) < Len(t) => t[Len(s)] < t[Len(t)] BY <2>1 DEF Grows
  <2>6. Len(s) = Len(t) => t[Len(s)] = t[Len(t)] OBVIOUS
  <2> QED BY <2>2, <2>3, <2>4, <2>5, <2>6, <1>0
<1> QED BY <1>1, <1>2

LEMMA StepDrain == ASSUME Ind, LDrain PROVE Ind'
<1> USE DEF Ind, LType, Ordered, Prefix
<1>0. UNCHANGED <<sent, cuts, ready, got>> /\ ends' \in Seq(Nat) /\ Len(ends') = Len(sent) /\ Len(ends) <= Len(sent)
      /\ (\A i \in 1..Len(ends) : ends'[i] = ends[i]) /\ Grows(ends') /\ (\A i \in 1..Len(ends') : ends'[i] > 0)
  BY DEF LDrain
<1>1. Last(ends) <= Last(ends') BY <1>0, LastGrows
<1>2. Last(ends) \in Nat /\ Last(ends') \in Nat BY <1>0 DEF Last
<1>3. Rx' = Rx /\ Grows(cuts') BY <1>0 DEF Rx, Grows
<1>4. Ordered'
  <2>1. ASSUME NEW j \in 1..Len(cuts') PROVE cuts'[j] <= Last(ends')
    <3>1. cuts[j] <= Last(ends) /\ cuts[j] \in Nat BY <1>0
    <3> QED BY <3>1, <1>0, <1>1, <1>2
  <2>2. Last(ends)' = Last(ends') BY DEF Last
  <2> QED BY <2>1, <2>2, <1>0, <1>3 DEF Grows
<1>5. Prefix' BY <1>0, <1>3
<1> QED BY <1>0, <1>4, <1>5

LEMMA StepSend == ASSUME Ind, LSend PROVE Ind'
<1> USE DEF Ind, LType, Ordered, Prefix
<1>0. Last(cuts) \in Nat /\ Last(ends) \in Nat BY DEF Last
<1>1. PICK to \in (Last(cuts) + 1)..Last(ends) : cuts' = Append(cuts, to) BY DEF LSend
<1>2. UNCHANGED <<sent, ends, ready, got>> BY DEF LSend
<1>3. Len(cuts') = Len(cuts) + 1 /\ cuts'[Len(cuts) + 1] = to /\ cuts' \in Seq(Nat) /\ \A i \in 1..Len(cuts) : cuts'[i] = cuts[i] BY <1>0, <1>1
<1>4. Rx' = Rx BY <1>2, <1>3 DEF Rx
<1>5. \A i \in 1..Len(cuts) : cuts[i] <= Last(cuts)
  <2>1. SUFFICES ASSUME NEW i \in 1..Len(cuts) PROVE cuts[i] <= Last(cuts) OBVIOUS
  <2>2. Last(cuts) = cuts[Len(cuts)] /\ Len(cuts) \in 1..Len(cuts) /\ cuts[i] \in Nat BY DEF Last
  <2>3. i < Len(cuts) => cuts[i] < cuts[Len(cuts)] BY <2>2 DEF Grows
  <2> QED BY <2>2, <2>3, <1>0
<1>6. Grows(cuts')
  <2>1. SUFFICES ASSUME NEW i \in 1..Len(cuts'), NEW k \in 1..Len(cuts'), i < k PROVE cuts'[i] < cuts'[k] BY DEF Grows
  <2>2. i \in 1..Len(cuts) /\ cuts'[i] = cuts[i] /\ cuts[i] \in Nat BY <2>1, <1>3
  <2>3. CASE k = Len(cuts) + 1 BY <2>2, <2>3, <1>0, <1>3, <1>5
  <2>4. CASE k # Len(cuts) + 1
    <3>1. k \in 1..Len(cuts) /\ cuts'[k] = cuts[k] BY <2>4, <1>3
    <3> QED BY <3>1, <2>1, <2>2 DEF Grows
  <2> QED BY <2>3, <2>4
<1>7. \A j \in 1..Len(cuts') : cuts'[j] <= Last(ends)
  <2>1. SUFFICES ASSUME NEW j \in 1..Len(cuts') PROVE cuts'[j] <= Last(ends) OBVIOUS
  <2>2. CASE j = Len(cuts) + 1 BY <2>2, <1>0, <1>1, <1>3
  <2>3. CASE j # Len(cuts) + 1
    <3>1. j \in 1..Len(cuts) BY <2>3, <1>3
    <3> QED BY <3>1, <1>3
  <2> QED BY <2>2, <2>3
<1>8. Ordered' BY <1>2, <1>3, <1>6, <1>7 DEF Last, Grows
<1>9. Prefix' BY <1>2, <1>4
<1> QED BY <1>2, <1>3, <1>8, <1>9

LEMMA StepDeliver == ASSUME Ind, LDeliver PROVE Ind'
<1> USE DEF Ind, LType, Ordered, Prefix
<1>0. ready < Len(cuts) /\ ready' = ready + 1 /\ UNCHANGED <<sent, ends, cuts, got>> BY DEF LDeliver
<1>1. Rx \in Nat /\ Rx' \in Nat /\ Rx <= Rx'
  <2>1. ready' \in 1..Len(cuts) /\ Rx' = cuts[ready'] BY <1>0 DEF Rx
  <2>2. CASE ready = 0 BY <2>1, <2>2 DEF Rx
  <2>3. CASE ready # 0
    <3>1. ready \in 1..Len(cuts) /\ Rx = cuts[ready] BY <2>3 DEF Rx
    <3> QED BY <2>1, <3>1, <1>0 DEF Grows
  <2> QED BY <2>2, <2>3
<1>2. Ordered' BY <1>0 DEF Grows, Last
<1>3. Prefix'
  <2>1. ASSUME NEW i \in 1..Len(got) PROVE ends[i] <= Rx'
    <3>1. ends[i] \in Nat /\ ends[i] <= Rx OBVIOUS
    <3> QED BY <3>1, <1>1
  <2> QED BY <2>1, <1>0
<1> QED BY <1>0, <1>2, <1>3

LEMMA StepTake == ASSUME Ind, LTake PROVE Ind'
<1> USE DEF Ind, LType, Ordered, Prefix
<1>0. Len(got) < Len(ends) /\ ends[Len(got) + 1] <= Rx /\ got' = Append(got, sent[Len(got) + 1]) /\ UNCHANGED <<sent, ends, cuts, ready>>
  BY DEF LTake, CanTake
<1>1. Rx' = Rx BY <1>0 DEF Rx
<1>2. Len(got) + 1 \in 1..Len(sent) BY <1>0
<1>3. Len(got') = Len(got) + 1 /\ got'[Len(got) + 1] = sent[Len(got) + 1] /\ got' \in Seq(Message) /\ \A i \in 1..Len(got) : got'[i] = got[i] BY <1>0, <1>2
<1>4. Ordered' BY <1>0 DEF Grows, Last
<1>5. Prefix'
  <2>1. ASSUME NEW i \in 1..Len(got') PROVE got'[i] = sent[i] /\ ends[i] <= Rx
    <3>1. CASE i = Len(got) + 1 BY <3>1, <1>0, <1>3
    <3>2. CASE i # Len(got) + 1
      <4>1. i \in 1..Len(got) BY <3>2, <1>3
      <4> QED BY <4>1, <1>3
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <1>0, <1>1, <1>3
<1> QED BY <1>0, <1>3, <1>4, <1>5

LEMMA StepIdle == ASSUME Ind, UNCHANGED lvars PROVE Ind'
BY DEF Ind, LType, Ordered, Prefix, lvars, Grows, Last, Rx

LEMMA All == Ind => Everything
<1> SUFFICES ASSUME Ind, Len(ends) = Len(sent), Last(cuts) = Last(ends), ready = Len(cuts), ~CanTake PROVE got = sent
  BY DEF Everything
<1> USE DEF Ind, LType, Ordered, Prefix
<1>0. Rx = Last(ends) BY DEF Rx, Last
<1>1. Len(got) = Len(ends)
  <2>1. SUFFICES ASSUME Len(got) < Len(ends) PROVE FALSE OBVIOUS
  <2>2. Len(got) + 1 \in 1..Len(ends) /\ Len(ends) \in 1..Len(ends) BY <2>1
  <2>3. Last(ends) = ends[Len(ends)] /\ ends[Len(got) + 1] \in Nat /\ ends[Len(ends)] \in Nat BY <2>2 DEF Last
  <2>4. ends[Len(got) + 1] <= ends[Len(ends)]
    <3>1. CASE Len(got) + 1 = Len(ends) BY <3>1, <2>3
    <3>2. CASE Len(got) + 1 # Len(ends)
      <4>1. Len(got) + 1 < Len(ends) BY <3>2, <2>2
      <4>2. ends[Len(got) + 1] < ends[Len(ends)] BY <4>1, <2>2 DEF Grows
      <4> QED BY <4>2, <2>3
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>3, <2>4, <1>0 DEF CanTake
<1>2. \A i \in 1..Len(sent) : got[i] = sent[i] BY <1>1
<1> QED BY <1>1, <1>2

THEOREM Always == LSpec => [](LType /\ Ordered /\ Prefix /\ Everything)
<1>1. Ind /\ [LNext]_lvars => Ind' BY StepQueue, StepDrain, StepSend, StepDeliver, StepTake, StepIdle DEF LNext
<1> QED BY First, <1>1, All, PTL DEF LSpec, Ind
=============================================================================
