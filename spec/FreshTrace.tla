----------------------------- MODULE FreshTrace -----------------------------
(***************************************************************************)
(* Values really generated, in one or more threads and processes, judged   *)
(* against Fresh.tla.                                                      *)
(***************************************************************************)
EXTENDS Fresh, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad, used
Init == l = 1 /\ bad = <<>> /\ used = NothingYet
Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     /\ used' = Record(used, e)
     /\ bad' = IF Acceptable(used, e) \/ Len(bad) >= 30 THEN bad ELSE Append(bad, l)

Spec == Init /\ [][Consume]_<<l, bad, used>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
