------------------------------- MODULE Indep --------------------------------
(***************************************************************************)
(* Separate objects do not influence each other.  An object (a session     *)
(* pair, a reader, a decoder, a certificate check, a queue, ...) is driven *)
(* by its own script; what it answers at a step is a function of its       *)
(* script and that step alone.  known is the part of that function that    *)
(* has been observed so far, in whatever company the object was.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Nothing == << >>     \* the empty function
Acceptable(known, e) == e.key \in DOMAIN known => known[e.key] = e.res
Record(known, e) ==
  IF e.key \in DOMAIN known THEN known
  ELSE [k \in DOMAIN known \cup {e.key} |-> IF k = e.key THEN e.res ELSE known[k]]
=============================================================================
