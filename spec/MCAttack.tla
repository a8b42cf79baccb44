------------------------------ MODULE MCAttack ------------------------------
(* All compositions of Attack.tla. *)
EXTENDS Attack, Json, TLC
CONSTANT EmitScripts
VARIABLES r, w1, w2
vars == <<r, w1, w2>>
Init == r \in DOMAIN Ephemerals /\ w1 \in Way1 /\ w2 = <<>>
Next == w2 = <<>> /\ w2' \in Way2 /\ UNCHANGED <<r, w1>>
Spec == Init /\ [][Next]_vars

Re == Ephemerals[r]
P1 == C1(Re, w1)
P2 == C2(Re, P1, w2)
HisOwn == {"SX", "EX"}

(* the honest course is that of NoiseTerms.tla *)
Same == LET b == Answers[1] IN
  /\ b.c1 = IEnv["c1"] /\ b.c2 = IEnv["c2"] /\ H6("ER", b.c1, b.c2) = IEnv["h6"]
  /\ Keys("ER", "SR") = << IEnv["key1"], IEnv["key2"] >>
  /\ Completes("ER", b.c1, b.c2) = {"SR"}
Analysed == NothingMore
(* he can make what he sends *)
Makeable == w2 = <<>> => CanMake(P1)
Makeable2 == w2 # <<>> => CanMake(P2)
(* C12: whoever completes does so with the answer of the responder named, or with the attacker under his own key *)
Authentic == w2 # <<>> => \A X \in Completes(Re, P1, P2) : X \in HisOwn \/ Genuine(r, w1, w2, X)
(* and this for every payload and every way: under an honest static key the key of the last part is out of reach *)
OutOfReach == w2 = <<>> => \A X \in StaticIn(Re, P1) : X \notin HisOwn => /\ ~CanMake(K2(Re, X))
                                                          /\ \A i \in 1..2 : ~CanMake(Keys(Re, X)[i])
(* the ciphertexts he could copy were each made for one place only *)
OnePlace == \A i \in DOMAIN Answers : \A j \in DOMAIN Ephemerals :
   StaticIn(Ephemerals[j], Answers[i].c1) # {} => <<i, Ephemerals[j]>> \in {<<1, "ER">>, <<4, "ER4">>}
(* with a key of his own he shares the transport keys *)
Shared == w2 # <<>> => \A X \in Completes(Re, P1, P2) : X \in HisOwn => \A i \in 1..2 : CanMake(Keys(Re, X)[i])
Emit == (EmitScripts /\ w2 # <<>>) => PrintT("BEH " \o ToJson(<< <<r>>, w1, w2, << Strange(r, w1, w2), IF Verdict(r, w1, w2) # {} THEN 1 ELSE 0 >> >>))
=============================================================================
