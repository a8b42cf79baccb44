----------------------------- MODULE NoiseTerms -----------------------------
(***************************************************************************)
(* Noise_NX_25519_ChaChaPoly_BLAKE2s, step by step (Noise protocol         *)
(* framework, revision 34).  Each step names a value, the operation that   *)
(* gives it and its arguments; "hash" and "cat" take the concatenation of  *)
(* their arguments, "hmac" a key and a message, "dh" a private and a       *)
(* public key, "aead" a key, associated data and a plaintext (at message   *)
(* number 0), "take1" the first 32 bytes.  Constants are written in place. *)
(*                                                                         *)
(* Inputs: protocol (the name), prologue, payloadA, payloadB, eI eR sR     *)
(* (private keys), EI ER SR (public keys).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Byte1 == "byte1"  \* the single byte 1
Byte2 == "byte2"

(* HKDF(ck, ikm) with two outputs o1, o2 *)
Hkdf(t, o1, o2, ck, ikm) == << <<t, "hmac", <<ck, ikm>>>>, <<o1, "hmac", <<t, Byte1>>>>, <<o2, "hmac2", <<t, o1, Byte2>>>> >>

Common ==
  << <<"h0", "hash", <<"protocol">>>>,          \* the name is longer than 32 bytes, so it is hashed
     <<"h1", "hash", <<"h0", "prologue">>>>,
     <<"h2", "hash", <<"h1", "EI">>>>,           \* -> e
     <<"h3", "hash", <<"h2", "payloadA">>>>,     \* no key yet: the payload goes in the clear
     <<"msgA", "cat", <<"EI", "payloadA">>>>,
     <<"h4", "hash", <<"h3", "ER">>>> >>         \* <- e

Rest ==
     Hkdf("t1", "ck1", "k1", "h0", "ee")          \* <- ee
  \o << <<"c1", "aead", <<"k1", "h4", "SR">>>>,  \* <- s
        <<"h5", "hash", <<"h4", "c1">>>> >>
  \o Hkdf("t2", "ck2", "k2", "ck1", "es")         \* <- es
  \o << <<"c2", "aead", <<"k2", "h5", "payloadB">>>>,
        <<"h6", "hash", <<"h5", "c2">>>>,
        <<"msgB", "cat", <<"ER", "c1", "c2">>>> >>
  \o Hkdf("t3", "key1", "key2", "ck2", "empty")   \* split: key1 initiator to responder, key2 back

InitiatorView == Common \o << <<"ee", "dh", <<"eI", "ER">>>>, <<"es", "dh", <<"eI", "SR">>>> >> \o Rest
ResponderView == Common \o << <<"ee", "dh", <<"eR", "EI">>>>, <<"es", "dh", <<"sR", "EI">>>> >> \o Rest

(* Transport message number n on a key: AEAD with the number in the nonce and no associated data.  *)
(* Rekey: the first 32 bytes of encrypting 32 zero bytes at number 2^64 - 1.                       *)
Protocol == <<78,111,105,115,101,95,78,88,95,50,53,53,49,57,95,67,104,97,67,104,97,80,111,108,121,95,66,76,65,75,69,50,115>>

-----------------------------------------------------------------------------
(* Symbolic evaluation *)
PublicOf == [EI |-> "eI", ER |-> "eR", SR |-> "sR"]
Atom(a) == <<"atom", a>>
Apply(f, args) ==
  CASE f = "dh" -> <<"dh", { args[1], args[2] }>>     \* DH(a, B) = DH(b, A)
    [] f = "hmac2" -> <<"hmac", <<args[1], <<"cat", <<args[2], args[3]>>>>>>>>
    [] OTHER -> <<f, args>>

RECURSIVE Eval(_, _, _)
Eval(steps, i, env) ==
  IF i > Len(steps) THEN env
  ELSE LET st == steps[i]
           arg(a) == IF a \in DOMAIN env THEN env[a] ELSE IF a \in DOMAIN PublicOf /\ st[2] = "dh" THEN Atom(PublicOf[a]) ELSE Atom(a)
           val == Apply(st[2], [j \in DOMAIN st[3] |-> arg(st[3][j])]) IN
       Eval(steps, i + 1, [x \in DOMAIN env \cup {st[1]} |-> IF x = st[1] THEN val ELSE env[x]])

Empty == [x \in {} |-> x]
IEnv == Eval(InitiatorView, 1, Empty)
REnv == Eval(ResponderView, 1, Empty)

(* Both ends derive the same messages, hash and keys *)
BothAgree == \A x \in {"msgA", "msgB", "h6", "key1", "key2"} : IEnv[x] = REnv[x]
Distinct == Cardinality({ IEnv[x] : x \in DOMAIN IEnv }) = Cardinality(DOMAIN IEnv)
Inputs == {"protocol", "prologue", "payloadA", "payloadB", "eI", "eR", "sR", "EI", "ER", "SR", "empty", Byte1, Byte2}
WellFormed(steps) == \A i \in DOMAIN steps : \A j \in DOMAIN steps[i][3] :
   steps[i][3][j] \in Inputs \cup { steps[k][1] : k \in 1..(i - 1) }

(* Does the symbolic value depend on an input? *)
RECURSIVE Mentions(_, _, _)
ArgsOf(steps, x) == LET I == { i \in DOMAIN steps : steps[i][1] = x } IN
  IF I = {} THEN {} ELSE LET st == steps[CHOOSE i \in I : TRUE] IN { st[3][j] : j \in DOMAIN st[3] }
Mentions(steps, x, in) == x = in \/ \E a \in ArgsOf(steps, x) : Mentions(steps, a, in)
(* the hash covers everything said; the keys cover both Diffie-Hellman results *)
Covers == /\ \A x \in {"protocol", "prologue", "EI", "payloadA", "ER", "SR", "payloadB"} : Mentions(InitiatorView, "h6", x)
          /\ \A x \in {"c1", "c2"} : \A y \in {"prologue", "EI", "payloadA", "ER"} : Mentions(InitiatorView, x, y)
          /\ \A x \in {"key1", "key2"} : \A y \in {"eI", "ER", "SR"} : Mentions(InitiatorView, x, y)
          /\ \A x \in {"key1", "key2"} : \A y \in {"eR", "sR", "EI"} : Mentions(ResponderView, x, y)
=============================================================================
