---------------------------- MODULE DrainsProof -----------------------------
(* The guarantees of Drains.tla for histories of every length (TLAPS). *)
EXTENDS Drains, TLAPS

Ind == DType /\ EachOnce

LEMMA First == DInit => Ind
BY DEF DInit, Ind, DType, EachOnce

LEMMA StepPush == ASSUME Ind, DPush PROVE Ind'
BY DEF Ind, DType, EachOnce, DPush, In

LEMMA StepTake == ASSUME Ind, DTake PROVE Ind'
<1> USE DEF Ind, DType, EachOnce, DTake, In
<1>0. /\ Len(caps') = Len(caps) + 1 /\ caps'[Len(caps) + 1] = <<upto, pushed>>
      /\ \A i \in 1..Len(caps) : caps'[i] = caps[i]
      /\ caps' \in Seq(Nat \X Nat)
  OBVIOUS
<1>1. DType' BY <1>0
<1>2. ASSUME NEW j \in 1..upto' PROVE \E i \in 1..Len(caps') : In(j, caps'[i])
  <2>1. CASE j <= upto
    <3>1. PICK i \in 1..Len(caps) : In(j, caps[i]) BY <2>1
    <3> QED BY <3>1, <1>0
  <2>2. CASE j > upto BY <2>2, <1>0
  <2> QED BY <2>1, <2>2
<1>3. ASSUME NEW i \in 1..Len(caps') PROVE caps'[i][1] <= caps'[i][2] /\ caps'[i][2] <= upto'
  <2>1. CASE i = Len(caps) + 1 BY <2>1, <1>0
  <2>2. CASE i # Len(caps) + 1
    <3>1. i \in 1..Len(caps) BY <2>2, <1>0
    <3>2. caps[i] \in Nat \X Nat BY <3>1
    <3> QED BY <3>1, <3>2, <1>0
  <2> QED BY <2>1, <2>2
<1>4. ASSUME NEW i \in 1..Len(caps'), NEW k \in 1..Len(caps'), i < k PROVE caps'[i][2] <= caps'[k][1]
  <2>0. i \in 1..Len(caps) BY <1>4, <1>0
  <2>1. CASE k = Len(caps) + 1 BY <2>0, <2>1, <1>0
  <2>2. CASE k # Len(caps) + 1
    <3>1. k \in 1..Len(caps) BY <2>2, <1>0
    <3> QED BY <1>4, <2>0, <3>1, <1>0
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA StepIdle == ASSUME Ind, UNCHANGED dvars PROVE Ind'
BY DEF Ind, DType, EachOnce, dvars, In

THEOREM Always == DSpec => [](DType /\ EachOnce)
<1>1. Ind /\ [DNext]_dvars => Ind' BY StepPush, StepTake, StepIdle DEF DNext
<1> QED BY First, <1>1, PTL DEF DSpec, Ind

(* No message is taken twice. *)
THEOREM Never == ASSUME DType, EachOnce, NEW i \in 1..Len(caps), NEW k \in 1..Len(caps), NEW j \in Nat, In(j, caps[i]), In(j, caps[k])
                 PROVE i = k
<1>1. caps[i] \in Nat \X Nat /\ caps[k] \in Nat \X Nat BY DEF DType
<1>2. Len(caps) \in Nat BY DEF DType
<1>3. ~(i < k) BY <1>1 DEF EachOnce, In
<1>4. ~(k < i) BY <1>1 DEF EachOnce, In
<1> QED BY <1>2, <1>3, <1>4
=============================================================================
