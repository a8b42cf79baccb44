------------------------------- MODULE Attack -------------------------------
(***************************************************************************)
(* The handshake under an attacker who computes.  He owns the network, an  *)
(* ephemeral key eX and a static key sX, has seen five answers of honest   *)
(* responders, and composes second messages for an initiator that opened   *)
(* with EI, payloadA: each of the three parts (ephemeral key, encrypted    *)
(* static key, encrypted payload) is copied from an answer, or made from   *)
(* what he can compute, rightly or in one of the ways a careless           *)
(* implementation might be satisfied with.  Values are the symbolic terms  *)
(* of NoiseTerms.tla.                                                      *)
(***************************************************************************)
EXTENDS NoiseTerms

H(a, b) == <<"hash", <<a, b>>>>
T(ck, ikm) == <<"hmac", <<ck, ikm>>>>
O1(t) == <<"hmac", <<t, Atom(Byte1)>>>>
O2(t) == <<"hmac", <<t, <<"cat", <<O1(t), Atom(Byte2)>>>>>>>>
Aead(k, ad, p) == <<"aead", <<k, ad, p>>>>
H0 == <<"hash", <<Atom("protocol")>>>>

Priv == [EI |-> "eI", EJ |-> "eJ", EX |-> "eX", SX |-> "sX", SR |-> "sR", SQ |-> "sQ",
         ER |-> "eR", ER2 |-> "eR2", ER3 |-> "eR3", ER4 |-> "eR4", ER5 |-> "eR5"]
Publics == DOMAIN Priv
Dh(P, Q) == <<"dh", { Atom(Priv[P]), Atom(Priv[Q]) }>>

H3(pro, ei, pa) == H(H(H(H0, Atom(pro)), Atom(ei)), Atom(pa))
H4(pro, ei, pa, re) == H(H3(pro, ei, pa), Atom(re))

(* What an honest responder with ephemeral key er and static key s answers to the opening ei, pa *)
Answer(ei, pa, er, s, pb) ==
  LET t1 == T(H0, Dh(ei, er))
      h4 == H4("prologue", ei, pa, er)
      c1 == Aead(O2(t1), h4, Atom(s))
      t2 == T(O1(t1), Dh(ei, s)) IN
  [re |-> er, c1 |-> c1, c2 |-> Aead(O2(t2), H(h4, c1), Atom(pb))]
Answers == << Answer("EI", "payloadA", "ER",  "SR", "payloadB"),   \* to the initiator attacked
              Answer("EX", "payloadX", "ER2", "SR", "payloadB"),   \* to the attacker himself
              Answer("EI", "payloadX", "ER3", "SR", "payloadB"),   \* to the opening with its payload replaced
              Answer("EI", "payloadA", "ER4", "SQ", "payloadB"),   \* by another server
              Answer("EJ", "payloadA", "ER5", "SR", "payloadB") >> \* to another initiator

-----------------------------------------------------------------------------
(* How the initiator takes <<re, c1, c2>> *)
IH4(re) == H4("prologue", "EI", "payloadA", re)
IT1(re) == T(H0, Dh("EI", re))
StaticIn(re, c1) == { X \in Publics : c1 = Aead(O2(IT1(re)), IH4(re), Atom(X)) }      \* at most one
IT2(re, X) == T(O1(IT1(re)), Dh("EI", X))
K2(re, X) == O2(IT2(re, X))
Payloads == {"payloadA", "payloadB", "payloadX"}
PayloadIn(re, c1, X, c2) == { p \in Payloads : c2 = Aead(K2(re, X), H(IH4(re), c1), Atom(p)) }
(* the remote key the initiator completes with; none if it refuses *)
Completes(re, c1, c2) == { X \in StaticIn(re, c1) : PayloadIn(re, c1, X, c2) # {} }
H6(re, c1, c2) == H(H(IH4(re), c1), c2)
Keys(re, X) == LET t == T(O1(IT2(re, X)), Atom("empty")) IN << O1(t), O2(t) >>

-----------------------------------------------------------------------------
(* What the attacker can compute.  Everything public, his two private keys, and what he has seen *)
Own == {"eX", "sX"}
Seen == { Answers[i].c1 : i \in DOMAIN Answers } \cup { Answers[i].c2 : i \in DOMAIN Answers }
Known == { Atom(x) : x \in Publics \cup Payloads \cup Own \cup {"protocol", "prologue", "otherPrologue", "empty", Byte1, Byte2} } \cup Seen
RECURSIVE CanMake(_)
CanMake(t) ==
  \/ t \in Known
  \/ t[1] = "dh" /\ \E x \in Own : Atom(x) \in t[2]                     \* the other public key is known
  \/ t[1] \notin {"atom", "dh"} /\ \A i \in DOMAIN t[2] : CanMake(t[2][i])
(* taking apart what he has seen tells him nothing more *)
KeysOfSeen == { c[2][1] : c \in Seen }
NothingMore == \A c \in Seen : CanMake(c[2][1]) => CanMake(c[2][3])

(* His ways of making the parts *)
Ephemerals == << "EX", "ER", "ER2", "ER3", "ER4", "ER5", "EI", "SR", "SX" >>
Secrets == << Dh("EX", "EI"), Dh("SX", "EI"), Dh("EX", "SR"), Dh("EX", "ER2"), Atom("empty") >>
Statics == << "SX", "SR", "SQ", "EX", "EI" >>
Ad1(k, re) ==
  CASE k = 1 -> IH4(re)
    [] k = 2 -> H4("prologue", "EI", "payloadX", re)
    [] k = 3 -> H4("otherPrologue", "EI", "payloadA", re)
    [] k = 4 -> H4("prologue", "EX", "payloadA", re)
    [] k = 5 -> H3("prologue", "EI", "payloadA")            \* without the ephemeral key
    [] k = 6 -> H(H(H(H0, Atom("EI")), Atom("payloadA")), Atom(re))   \* without the prologue
    [] OTHER -> Atom("empty")
C1(re, c) == IF c[1] # 0 THEN Answers[c[1]].c1
             ELSE Aead(O2(T(H0, Secrets[c[2]])), Ad1(c[3], re), Atom(Statics[c[4]]))
(* the chain after the second secret; 6: the second secret is left out *)
T2(a, b) == IF b = 6 THEN T(H0, Secrets[a]) ELSE T(O1(T(H0, Secrets[a])), Secrets[b])
Ad2(k, re, c1) == CASE k = 1 -> H(IH4(re), c1) [] k = 2 -> IH4(re) [] OTHER -> Atom("empty")
C2(re, c1, c) == IF c[1] # 0 THEN Answers[c[1]].c2
                 ELSE Aead(O2(T2(c[2], c[3])), Ad2(c[4], re, c1), Atom("payloadX"))

Copies == { <<i, 0, 0, 0>> : i \in DOMAIN Answers }
Way1 == Copies \cup { <<0, a, b, c>> : a \in DOMAIN Secrets, b \in 1..7, c \in DOMAIN Statics }
Way2 == Copies \cup { <<0, a, b, c>> : a \in DOMAIN Secrets, b \in 1..6, c \in 1..3 }

(* The verdict on a composition: the remote key, or none *)
Verdict(r, w1, w2) == LET re == Ephemerals[r]
                          c1 == C1(re, w1) IN Completes(re, c1, C2(re, c1, w2))
(* the whole answer of a responder to this very opening, and the responder's key *)
Genuine(r, w1, w2, X) == \E i \in {1, 4} : Ephemerals[r] = Answers[i].re /\ w1[1] = i /\ w2[1] = i /\ X = (IF i = 1 THEN "SR" ELSE "SQ")
(* in how many places it differs from an honest course of the attacker's own *)
Off(x, y) == Cardinality({ i \in DOMAIN x : x[i] # y[i] })
Strange(r, w1, w2) == (IF r = 1 THEN 0 ELSE 1) + Off(w1, <<0, 1, 1, 1>>) + Off(w2, <<0, 1, 2, 1>>)
=============================================================================
