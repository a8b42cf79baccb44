------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Why the encodings of Wire.tla can be read back: what an encoding is     *)
(* made of.  An encoding of a set of values is a function to byte          *)
(* sequences; it can be read from the front of any bytes, without being    *)
(* told where it ends, exactly when no encoding of one value followed by   *)
(* anything equals an encoding of another followed by anything             *)
(* (SelfDelimiting).  Wire.tla builds every layout from fixed-width        *)
(* values, length-prefixed runs and one field after another; FieldsProof   *)
(* shows that each of these keeps the encoding self-delimiting, for all    *)
(* lengths, limits and numbers of fields.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT Byte
Bytes == Seq(Byte)

SelfDelimiting(E) == \A v, w \in DOMAIN E : \A r, s \in Bytes : E[v] \o r = E[w] \o s => v = w

Width(E, n) == \A v \in DOMAIN E : Len(E[v]) = n
Injective(E) == \A v, w \in DOMAIN E : E[v] = E[w] => v = w

(* one field after another *)
Both(E, F) == [x \in (DOMAIN E) \X (DOMAIN F) |-> E[x[1]] \o F[x[2]]]
(* a run of at most max bytes after its length, which L encodes *)
Prefixed(L, max) == [v \in { s \in Bytes : Len(s) <= max } |-> L[Len(v)] \o v]
(* one of several kinds, told apart by its tag (sub-protocols) *)
Tagged(T, F) == [x \in { y \in (DOMAIN T) \X (UNION { DOMAIN F[t] : t \in DOMAIN T }) : y[2] \in DOMAIN F[y[1]] } |-> T[x[1]] \o F[x[1]][x[2]]]

(* lengths, little-endian *)
LE1 == [x \in 0..255 |-> <<x>>]
LE2 == [x \in 0..65535 |-> <<x % 256, x \div 256>>]
LE3 == [x \in 0..16777215 |-> <<x % 256, (x \div 256) % 256, x \div 65536>>]
=============================================================================
