---------------------------- MODULE ChannelProof ----------------------------
(* The guarantees of Channel.tla for histories of every length (TLAPS). *)
EXTENDS Channel, TLAPS
ASSUME MaxNat == Max \in Nat

Ind == CType /\ Once /\ Beginning

LEMMA First == CInit => Ind
BY MaxNat DEF CInit, Ind, CType, Once, Beginning

LEMMA StepSend == ASSUME Ind, NEW p \in Payload, CSend(p) PROVE Ind'
<1> USE DEF Ind, CType, Once, Beginning, CSend
<1>1. CType' OBVIOUS
<1>2. Once' BY MaxNat
<1>3. Beginning' OBVIOUS
<1> QED BY <1>1, <1>2, <1>3

LEMMA StepRecv == ASSUME Ind, NEW m \in net, CRecv(m) PROVE Ind'
<1> USE DEF Ind, CType, Once, Beginning, CRecv
<1>1. CType' OBVIOUS
<1>2. Once' BY MaxNat
<1>3. Beginning'
  <2>1. Len(got') = rn' /\ rn' <= sn' OBVIOUS
  <2>2. ASSUME NEW i \in 1..Len(got') PROVE \E q \in net' : q.n = i - 1 /\ q.pl = got'[i]
    <3>1. CASE i = rn + 1 BY <3>1
    <3>2. CASE i # rn + 1
      <4>1. i \in 1..Len(got) /\ got'[i] = got[i] BY <3>2
      <4> QED BY <4>1
    <3> QED BY <3>1, <3>2
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2, <1>3

LEMMA StepRest == ASSUME Ind, CRekeyS \/ CRekeyR \/ CClearS \/ CClearR \/ UNCHANGED cvars PROVE Ind'
BY DEF Ind, CType, Once, Beginning, CRekeyS, CRekeyR, CClearS, CClearR, cvars

THEOREM Always == CSpec => [](CType /\ Once /\ Beginning)
<1>1. Ind /\ [CNext]_cvars => Ind' BY StepSend, StepRecv, StepRest DEF CNext
<1> QED BY First, <1>1, PTL DEF CSpec, Ind
=============================================================================
