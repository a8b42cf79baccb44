--------------------------------- MODULE Keys -------------------------------
(***************************************************************************)
(* Keys as bytes and as text, and the public keys nobody may use: the      *)
(* encodings of the points of small order on Curve25519 and its twist.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Small == {
 [i \in 1..32 |-> 0],
 [i \in 1..32 |-> IF i = 1 THEN 1 ELSE 0],
 <<224,235,122,124,59,65,184,174,22,86,227,250,241,159,196,106,218,9,141,235,156,50,177,253,134,98,5,22,95,73,184,0>>,
 <<95,156,149,188,163,80,140,36,177,208,177,85,156,131,239,91,4,68,92,196,88,28,142,134,216,34,78,221,208,159,17,87>>,
 [i \in 1..32 |-> IF i = 1 THEN 236 ELSE IF i = 32 THEN 127 ELSE 255],
 [i \in 1..32 |-> IF i = 1 THEN 237 ELSE IF i = 32 THEN 127 ELSE 255],
 [i \in 1..32 |-> IF i = 1 THEN 238 ELSE IF i = 32 THEN 127 ELSE 255],
 <<205,235,122,124,59,65,184,174,22,86,227,250,241,159,196,106,218,9,141,235,156,50,177,253,134,98,5,22,95,73,184,128>>,
 <<76,156,149,188,163,80,140,36,177,208,177,85,156,131,239,91,4,68,92,196,88,28,142,134,216,34,78,221,208,159,17,215>>,
 [i \in 1..32 |-> IF i = 1 THEN 217 ELSE 255],
 [i \in 1..32 |-> IF i = 1 THEN 218 ELSE 255],
 [i \in 1..32 |-> IF i = 1 THEN 219 ELSE 255] }

HexDigit(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsHex(s, n) == Len(s) = 2 * n /\ \A i \in DOMAIN s : HexDigit(s[i])
UnHexN(s, n) == [i \in 1..n |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
IsHex64(s) == IsHex(s, 32)
UnHex(s) == UnHexN(s, 32)

KeyBytes(b) == b \notin Small
KeyText(s) == IsHex64(s) /\ UnHex(s) \notin Small
=============================================================================
