------------------------------- MODULE Fresh --------------------------------
(***************************************************************************)
(* Values the library generates: key pairs and runs of channel ids.  A     *)
(* value v has an identity (its public half, or the run itself) and is     *)
(* valid if its halves belong together.  All generated values of one kind, *)
(* in all threads and processes, go into one history.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"noise", "authority", "responder", "inbound", "opening", "answer", "channels"}

NothingYet == {}
Acceptable(used, e) == e.kind \in Kinds /\ e.valid /\ e.v \notin used
Record(used, e) == used \cup {e.v}
=============================================================================
