-------------------------------- MODULE MCKeys ------------------------------
(* Reading a key's text one character at a time, for keys of N bytes. *)
EXTENDS Keys
CONSTANTS N, Alphabet
VARIABLES s, st   \* the text so far; what a reader makes of it: bytes so far and a pending digit, or refused
Init == s = <<>> /\ st = [ok |-> TRUE, out |-> <<>>, half |-> -1]
Read(r, c) ==
  IF ~r.ok \/ ~HexDigit(c) \/ (Len(r.out) = N) THEN [r EXCEPT !.ok = FALSE]
  ELSE IF r.half = -1 THEN [r EXCEPT !.half = HexVal(c)]
  ELSE [r EXCEPT !.out = Append(@, 16 * r.half + HexVal(c)), !.half = -1]
Next == \E c \in Alphabet : Len(s) < 2 * N + 1 /\ s' = Append(s, c) /\ st' = Read(st, c)
Spec == Init /\ [][Next]_<<s, st>>

(* reading character by character accepts exactly the texts of N bytes, with the same result *)
Reads == (st.ok /\ st.half = -1 /\ Len(st.out) = N) = IsHex(s, N)
Value == IsHex(s, N) => st.out = UnHexN(s, N) /\ \A i \in 1..N : st.out[i] \in 0..255
Twelve == Cardinality(Small) = 12 /\ \A b \in Small : Len(b) = 32 /\ \A i \in 1..32 : b[i] \in 0..255
=============================================================================
