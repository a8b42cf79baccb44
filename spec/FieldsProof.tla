---------------------------- MODULE FieldsProof -----------------------------
(* The theorems about Fields.tla (TLAPS). *)
EXTENDS Fields, TLAPS

LEMMA Assoc == ASSUME NEW a \in Bytes, NEW b \in Bytes, NEW c \in Bytes
               PROVE /\ (a \o b) \o c = a \o (b \o c)
                     /\ a \o b \in Bytes /\ b \o c \in Bytes
BY DEF Bytes

LEMMA Cancel == ASSUME NEW a \in Bytes, NEW b \in Bytes, NEW c \in Bytes, a \o b = a \o c
                PROVE b = c
<1> USE DEF Bytes
<1>1. Len(b) = Len(c)
  <2>1. Len(a \o b) = Len(a) + Len(b) /\ Len(a \o c) = Len(a) + Len(c) OBVIOUS
  <2> QED BY <2>1
<1>2. ASSUME NEW i \in 1..Len(b) PROVE b[i] = c[i]
  <2>1. (a \o b)[Len(a) + i] = b[i] OBVIOUS
  <2>2. (a \o c)[Len(a) + i] = c[i] BY <1>1
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2

(* Two runs of equal length in front of anything are equal when the wholes are. *)
LEMMA Front == ASSUME NEW a \in Bytes, NEW b \in Bytes, NEW r \in Bytes, NEW s \in Bytes, Len(a) = Len(b), a \o r = b \o s
               PROVE a = b
<1> USE DEF Bytes
<1>1. ASSUME NEW i \in 1..Len(a) PROVE a[i] = b[i]
  <2>1. (a \o r)[i] = a[i] OBVIOUS
  <2>2. (b \o s)[i] = b[i] OBVIOUS
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1

THEOREM Fixed == ASSUME NEW V, NEW E \in [V -> Bytes], NEW n \in Nat, Width(E, n), Injective(E)
                 PROVE SelfDelimiting(E)
<1> SUFFICES ASSUME NEW v \in V, NEW w \in V, NEW r \in Bytes, NEW s \in Bytes, E[v] \o r = E[w] \o s PROVE v = w
  BY DEF SelfDelimiting
<1>1. E[v] \in Bytes /\ E[w] \in Bytes OBVIOUS
<1>2. Len(E[v]) = Len(E[w]) BY DEF Width
<1>3. E[v] = E[w] BY <1>1, <1>2, Front
<1> QED BY <1>3 DEF Injective

THEOREM Pairs == ASSUME NEW V, NEW W, NEW E \in [V -> Bytes], NEW F \in [W -> Bytes], SelfDelimiting(E), SelfDelimiting(F)
                 PROVE SelfDelimiting(Both(E, F))
<1>1. DOMAIN Both(E, F) = V \X W BY DEF Both
<1> SUFFICES ASSUME NEW x \in V \X W, NEW y \in V \X W, NEW r \in Bytes, NEW s \in Bytes, Both(E, F)[x] \o r = Both(E, F)[y] \o s PROVE x = y
  BY <1>1 DEF SelfDelimiting
<1>2. x[1] \in V /\ x[2] \in W /\ y[1] \in V /\ y[2] \in W /\ x = <<x[1], x[2]>> /\ y = <<y[1], y[2]>> OBVIOUS
<1>3. E[x[1]] \in Bytes /\ F[x[2]] \in Bytes /\ E[y[1]] \in Bytes /\ F[y[2]] \in Bytes BY <1>2
<1>4. Both(E, F)[x] = E[x[1]] \o F[x[2]] /\ Both(E, F)[y] = E[y[1]] \o F[y[2]] BY DEF Both
<1>5. E[x[1]] \o (F[x[2]] \o r) = E[y[1]] \o (F[y[2]] \o s) BY <1>3, <1>4, Assoc
<1>6. F[x[2]] \o r \in Bytes /\ F[y[2]] \o s \in Bytes BY <1>3, Assoc
<1>7. x[1] = y[1] BY <1>2, <1>5, <1>6 DEF SelfDelimiting
<1>8. F[x[2]] \o r = F[y[2]] \o s BY <1>3, <1>5, <1>6, <1>7, Cancel
<1>9. x[2] = y[2] BY <1>2, <1>8 DEF SelfDelimiting
<1> QED BY <1>2, <1>7, <1>9

THEOREM Runs == ASSUME NEW max \in Nat, NEW L \in [0..max -> Bytes], SelfDelimiting(L)
                PROVE SelfDelimiting(Prefixed(L, max))
<1> DEFINE V == { s \in Bytes : Len(s) <= max }
<1>1. DOMAIN Prefixed(L, max) = V BY DEF Prefixed
<1> SUFFICES ASSUME NEW v \in V, NEW w \in V, NEW r \in Bytes, NEW s \in Bytes, Prefixed(L, max)[v] \o r = Prefixed(L, max)[w] \o s PROVE v = w
  BY <1>1 DEF SelfDelimiting
<1>2. v \in Bytes /\ w \in Bytes /\ Len(v) \in 0..max /\ Len(w) \in 0..max BY DEF Bytes
<1>3. L[Len(v)] \in Bytes /\ L[Len(w)] \in Bytes BY <1>2
<1>4. Prefixed(L, max)[v] = L[Len(v)] \o v /\ Prefixed(L, max)[w] = L[Len(w)] \o w BY DEF Prefixed
<1>5. L[Len(v)] \o (v \o r) = L[Len(w)] \o (w \o s) BY <1>2, <1>3, <1>4, Assoc
<1>6. v \o r \in Bytes /\ w \o s \in Bytes BY <1>2, Assoc
<1>7. Len(v) = Len(w) BY <1>2, <1>5, <1>6 DEF SelfDelimiting
<1>8. v \o r = w \o s BY <1>2, <1>3, <1>5, <1>6, <1>7, Cancel
<1> QED BY <1>2, <1>7, <1>8, Front

THEOREM Kinds == ASSUME NEW K, NEW T \in [K -> Bytes], SelfDelimiting(T), NEW F, DOMAIN F = K,
                        \A k \in K : F[k] \in [DOMAIN F[k] -> Bytes] /\ SelfDelimiting(F[k])
                 PROVE SelfDelimiting(Tagged(T, F))
<1> DEFINE D == { y \in K \X (UNION { DOMAIN F[t] : t \in K }) : y[2] \in DOMAIN F[y[1]] }
<1>1. DOMAIN Tagged(T, F) = D BY DEF Tagged
<1> SUFFICES ASSUME NEW x \in D, NEW y \in D, NEW r \in Bytes, NEW s \in Bytes, Tagged(T, F)[x] \o r = Tagged(T, F)[y] \o s PROVE x = y
  BY <1>1 DEF SelfDelimiting
<1>2. x[1] \in K /\ y[1] \in K /\ x[2] \in DOMAIN F[x[1]] /\ y[2] \in DOMAIN F[y[1]] /\ x = <<x[1], x[2]>> /\ y = <<y[1], y[2]>> OBVIOUS
<1> HIDE DEF D
<1>3. T[x[1]] \in Bytes /\ T[y[1]] \in Bytes /\ F[x[1]][x[2]] \in Bytes /\ F[y[1]][y[2]] \in Bytes BY <1>2
<1>4. Tagged(T, F)[x] = T[x[1]] \o F[x[1]][x[2]] /\ Tagged(T, F)[y] = T[y[1]] \o F[y[1]][y[2]]
  <2>1. Tagged(T, F) = [z \in D |-> T[z[1]] \o F[z[1]][z[2]]] BY DEF Tagged, D
  <2> QED BY <2>1
<1>5. T[x[1]] \o (F[x[1]][x[2]] \o r) = T[y[1]] \o (F[y[1]][y[2]] \o s) BY <1>3, <1>4, Assoc
<1>6. F[x[1]][x[2]] \o r \in Bytes /\ F[y[1]][y[2]] \o s \in Bytes BY <1>3, Assoc
<1>7. x[1] = y[1] BY <1>2, <1>5, <1>6 DEF SelfDelimiting
<1>8. F[x[1]][x[2]] \o r = F[x[1]][y[2]] \o s BY <1>3, <1>5, <1>6, <1>7, Cancel
<1>9. x[2] = y[2] BY <1>2, <1>7, <1>8 DEF SelfDelimiting
<1> QED BY <1>2, <1>7, <1>9

(* Lengths of one, two and three bytes are encoded injectively at fixed width. *)
THEOREM Lengths == ASSUME 0..255 \subseteq Byte
                   PROVE SelfDelimiting(LE1) /\ SelfDelimiting(LE2) /\ SelfDelimiting(LE3)
<1>1. LE1 \in [0..255 -> Bytes] /\ Width(LE1, 1) /\ Injective(LE1)
  BY DEF LE1, Bytes, Width, Injective
<1>2. LE2 \in [0..65535 -> Bytes] /\ Width(LE2, 2) /\ Injective(LE2)
  <2>1. \A x \in 0..65535 : x % 256 \in 0..255 /\ x \div 256 \in 0..255 /\ x = 256 * (x \div 256) + (x % 256) OBVIOUS
  <2>2. LE2 \in [0..65535 -> Bytes] BY <2>1 DEF LE2, Bytes
  <2>3. Width(LE2, 2) BY DEF LE2, Width
  <2>4. ASSUME NEW x \in 0..65535, NEW y \in 0..65535, LE2[x] = LE2[y] PROVE x = y
    <3>1. x % 256 = y % 256 /\ x \div 256 = y \div 256 BY <2>4 DEF LE2
    <3> QED BY <3>1, <2>1
  <2> QED BY <2>2, <2>3, <2>4 DEF Injective, LE2
<1>3. LE3 \in [0..16777215 -> Bytes] /\ Width(LE3, 3) /\ Injective(LE3)
  <2>0. \A x \in 0..16777215 : x \div 65536 = (x \div 256) \div 256 OBVIOUS
  <2>1. \A x \in 0..16777215 : x % 256 \in 0..255 /\ x \div 256 \in 0..65535 /\ x = 256 * (x \div 256) + (x % 256) OBVIOUS
  <2>2. \A z \in 0..65535 : z % 256 \in 0..255 /\ z \div 256 \in 0..255 /\ z = 256 * (z \div 256) + (z % 256) OBVIOUS
  <2>3. LE3 \in [0..16777215 -> Bytes] BY <2>0, <2>1, <2>2 DEF LE3, Bytes
  <2>4. Width(LE3, 3) BY DEF LE3, Width
  <2>5. ASSUME NEW x \in 0..16777215, NEW y \in 0..16777215, LE3[x] = LE3[y] PROVE x = y
    <3>1. x % 256 = y % 256 /\ (x \div 256) % 256 = (y \div 256) % 256 /\ x \div 65536 = y \div 65536 BY <2>5 DEF LE3
    <3>2. x \div 256 = y \div 256 BY <3>1, <2>0, <2>1, <2>2
    <3> QED BY <3>1, <3>2, <2>1
  <2> QED BY <2>3, <2>4, <2>5 DEF Injective, LE3
<1> QED BY <1>1, <1>2, <1>3, Fixed

(* Reading: the value whose encoding is at the front, if there is one, is the only one. *)
THEOREM ReadBack == ASSUME NEW V, NEW E \in [V -> Bytes], SelfDelimiting(E), NEW v \in V, NEW r \in Bytes
                    PROVE \A w \in V : (\E s \in Bytes : E[v] \o r = E[w] \o s) => w = v
BY DEF SelfDelimiting

(* No strict beginning of an encoding begins with an encoding. *)
THEOREM CutsAreNot == ASSUME NEW V, NEW E \in [V -> Bytes], SelfDelimiting(E), NEW v \in V, NEW c \in Bytes, NEW d \in Bytes,
                             E[v] = c \o d, Len(d) > 0
                      PROVE ~ \E w \in V : \E s \in Bytes : c = E[w] \o s
<1> SUFFICES ASSUME NEW w \in V, NEW s \in Bytes, c = E[w] \o s PROVE FALSE OBVIOUS
<1>1. E[v] \in Bytes /\ E[w] \in Bytes OBVIOUS
<1>2. E[v] = E[w] \o (s \o d) /\ s \o d \in Bytes BY <1>1, Assoc
<1>3. E[v] \o <<>> = E[w] \o (s \o d) /\ <<>> \in Bytes BY <1>1, <1>2 DEF Bytes
<1>4. v = w BY <1>2, <1>3 DEF SelfDelimiting
<1>5. Len(E[v]) = Len(E[w]) + Len(s \o d) BY <1>1, <1>2 DEF Bytes
<1>6. Len(s \o d) = Len(s) + Len(d) /\ Len(s) \in Nat /\ Len(d) \in Nat /\ Len(E[w]) \in Nat BY <1>1 DEF Bytes
<1> QED BY <1>4, <1>5, <1>6
=============================================================================
