---------------------------- MODULE PiecesProof -----------------------------
(* The guarantees of Pieces.tla for every buffer, offset and history (TLAPS). *)
EXTENDS Pieces, TLAPS

Ind == PType /\ Apart /\ Beyond

LEMMA First == PInit => Ind
BY DEF PInit, Ind, PType, Apart, Beyond

LEMMA StepRead == ASSUME Ind, NEW to \in at..Size, PRead(to) PROVE Ind'
<1> USE DEF Ind, PType, Apart, Beyond, PRead
<1>0. /\ Len(out') = Len(out) + 1 /\ out'[Len(out) + 1] = <<at, to>>
      /\ \A i \in 1..Len(out) : out'[i] = out[i]
      /\ out' \in Seq(Nat \X Nat)
  OBVIOUS
<1>1. PType' BY <1>0
<1>2. ASSUME NEW i \in 1..Len(out') PROVE From <= out'[i][1] /\ out'[i][1] <= out'[i][2] /\ out'[i][2] <= Size /\ out'[i][2] <= at'
  <2>1. CASE i = Len(out) + 1 BY <2>1, <1>0
  <2>2. CASE i # Len(out) + 1
    <3>1. i \in 1..Len(out) BY <2>2, <1>0
    <3>2. out[i] \in Nat \X Nat BY <3>1
    <3> QED BY <3>1, <3>2, <1>0
  <2> QED BY <2>1, <2>2
<1>3. ASSUME NEW i \in 1..Len(out'), NEW j \in 1..Len(out'), i < j PROVE out'[i][2] <= out'[j][1]
  <2>0. i \in 1..Len(out) BY <1>3, <1>0
  <2>1. CASE j = Len(out) + 1 BY <2>0, <2>1, <1>0
  <2>2. CASE j # Len(out) + 1
    <3>1. j \in 1..Len(out) BY <2>2, <1>0
    <3> QED BY <1>3, <2>0, <3>1, <1>0
  <2> QED BY <2>1, <2>2
<1>4. Beyond' OBVIOUS
<1> QED BY <1>1, <1>2, <1>3, <1>4

LEMMA StepFail == ASSUME Ind, NEW to \in at..Size, PFail(to) PROVE Ind'
<1> USE DEF Ind, PType, Apart, Beyond, PFail
<1>1. PType' /\ Beyond' OBVIOUS
<1>2. ASSUME NEW i \in 1..Len(out) PROVE out[i][2] <= at'
  <2>1. out[i] \in Nat \X Nat OBVIOUS
  <2> QED BY <2>1
<1> QED BY <1>1, <1>2

LEMMA StepIdle == ASSUME Ind, UNCHANGED pvars PROVE Ind'
BY DEF Ind, PType, Apart, Beyond, pvars

THEOREM Always == PSpec => [](PType /\ Apart /\ Beyond)
<1>1. Ind /\ [PNext]_pvars => Ind' BY StepRead, StepFail, StepIdle DEF PNext
<1> QED BY First, <1>1, PTL DEF PSpec, Ind
=============================================================================
