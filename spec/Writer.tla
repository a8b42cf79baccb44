------------------------------- MODULE Writer -------------------------------
(***************************************************************************)
(* Serialization into a writer that may take any part of what it is        *)
(* offered, take nothing, be interrupted, or fail.  State: the encoding to *)
(* be delivered, what the writer took, whether the writer ever misbehaved, *)
(* and the reported result.                                                *)
(***************************************************************************)
EXTENDS Wire

IsPrefixOf(a, s) == Len(a) <= Len(s) /\ \A i \in DOMAIN a : a[i] = s[i]

(* What may be reported once the writer holds `got` and faults did or did not occur. *)
MayReport(enc, got, fault, r, n) ==
  /\ IsPrefixOf(got, enc)
  /\ \/ r = "ok" /\ got = enc /\ n = Len(enc)
     \/ r = "err" /\ fault
=============================================================================
