------------------------------ MODULE Channel -------------------------------
(***************************************************************************)
(* One direction of an established session, on its own: a sender, a        *)
(* receiver and a network owned by an attacker, who may hand the receiver  *)
(* any message ever sent, in any order and any number of times (a message  *)
(* nobody sent is not readable, so offering one changes nothing).  The     *)
(* guarantees are proved below for every history, of any length, and with  *)
(* any number of rekeys of either end; MCNoise checks that the sessions of *)
(* Noise.tla behave like this module (its property Channels).              *)
(*                                                                         *)
(* n: message numbers, k: rekeys, c: cleared, of the sender (s) and the    *)
(* receiver (r); net: messages sent; got: what was delivered.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Payload, Max

VARIABLES net, sn, sk, sc, rn, rk, rc, got
cvars == <<net, sn, sk, sc, rn, rk, rc, got>>

CInit == /\ net = {} /\ sn = 0 /\ sk = 0 /\ sc = FALSE
         /\ rn = 0 /\ rk = 0 /\ rc = FALSE /\ got = <<>>

CSend(p) == /\ ~sc /\ sn < Max
            /\ net' = net \cup {[n |-> sn, k |-> sk, pl |-> p]}
            /\ sn' = sn + 1
            /\ UNCHANGED <<sk, sc, rn, rk, rc, got>>
CRecv(m) == /\ m \in net /\ m.n = rn /\ m.k = rk /\ ~rc /\ rn < Max
            /\ rn' = rn + 1 /\ got' = Append(got, m.pl)
            /\ UNCHANGED <<net, sn, sk, sc, rk, rc>>
CRekeyS == ~sc /\ sk' = sk + 1 /\ UNCHANGED <<net, sn, sc, rn, rk, rc, got>>
CRekeyR == ~rc /\ rk' = rk + 1 /\ UNCHANGED <<net, sn, sk, sc, rn, rc, got>>
CClearS == sc' = TRUE /\ UNCHANGED <<net, sn, sk, rn, rk, rc, got>>
CClearR == rc' = TRUE /\ UNCHANGED <<net, sn, sk, sc, rn, rk, got>>

CNext == \/ \E p \in Payload : CSend(p)
         \/ \E m \in net : CRecv(m)
         \/ CRekeyS \/ CRekeyR \/ CClearS \/ CClearR
CSpec == CInit /\ [][CNext]_cvars

-----------------------------------------------------------------------------
CType == /\ net \subseteq [n : Nat, k : Nat, pl : Payload]
         /\ sn \in Nat /\ sk \in Nat /\ sc \in BOOLEAN
         /\ rn \in Nat /\ rk \in Nat /\ rc \in BOOLEAN
         /\ got \in Seq(Payload)

(* no number is used twice, under whatever key; none beyond the last usable one *)
Once == /\ \A a, b \in net : a.n = b.n => a = b
        /\ \A a \in net : a.n < sn
        /\ sn <= Max /\ rn <= Max

(* what was delivered is the beginning of what was sent, in order, each once *)
Beginning == /\ Len(got) = rn
             /\ rn <= sn
             /\ \A i \in 1..Len(got) : \E m \in net : m.n = i - 1 /\ m.pl = got[i]
=============================================================================
