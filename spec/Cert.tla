-------------------------------- MODULE Cert --------------------------------
(***************************************************************************)
(* Certificates, the clock and timestamps.                                 *)
(*                                                                         *)
(* A signature is [by, over] for an authority key and what it signed, a    *)
(* certificate body [v, from, until, stat]; anything else presented as a   *)
(* signature is by nobody.  Times are compared with Before(a, b).          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Before(_, _)      \* strictly earlier
NotBefore(a, b) == ~Before(a, b)

Nobody == 0

InWindow(body, now) == NotBefore(now, body.from) /\ Before(now, body.until)
Verifies(auth, body, sig, now) == sig.by = auth /\ sig.over = body /\ InWindow(body, now)

(* An authority issues certificates for proper windows only *)
MayIssue(body) == Before(body.from, body.until)

-----------------------------------------------------------------------------
(* Text of an authority key: base 58, without check sum, of the 32 bytes of a curve point *)

Alphabet58 == <<49,50,51,52,53,54,55,56,57,65,66,67,68,69,70,71,72,74,75,76,77,78,80,81,82,83,84,85,86,87,88,89,90,
                97,98,99,100,101,102,103,104,105,106,107,109,110,111,112,113,114,115,116,117,118,119,120,121,122>>
Digit58(c) == LET I == { i \in 1..58 : Alphabet58[i] = c } IN IF I = {} THEN -1 ELSE (CHOOSE i \in I : TRUE) - 1

(* base-256 digits, least significant first: 58 * x + d *)
RECURSIVE Carry(_, _, _, _)
Carry(x, i, c, acc) ==
  IF i > Len(x) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET v == 58 * x[i] + c IN Carry(x, i + 1, v \div 256, Append(acc, v % 256))
RECURSIVE Accumulate(_, _, _)
Accumulate(s, i, x) == IF i > Len(s) THEN x ELSE Accumulate(s, i + 1, Carry(x, 1, Digit58(s[i]), <<>>))

RECURSIVE LeadingOnes(_, _)
LeadingOnes(s, i) == IF i <= Len(s) /\ s[i] = 49 THEN LeadingOnes(s, i + 1) ELSE i - 1
IsText58(s) == \A i \in DOMAIN s : Digit58(s[i]) # -1
Decode58(s) ==   \* the bytes, most significant first
  LET x == Accumulate(s, 1, <<>>)
      z == LeadingOnes(s, 1) IN
  [i \in 1..(z + Len(x)) |-> IF i <= z THEN 0 ELSE x[Len(x) - (i - z) + 1]]
=============================================================================
