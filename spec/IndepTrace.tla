----------------------------- MODULE IndepTrace -----------------------------
(***************************************************************************)
(* Answers of real objects, alone in a fresh process and in the company of *)
(* others, judged against Indep.tla.                                       *)
(***************************************************************************)
EXTENDS Indep, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, bad, known
Init == l = 1 /\ bad = <<>> /\ known = Nothing
Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     (* a new script begins: what is known of the others is not needed any more *)
     LET k == IF e.first THEN Nothing ELSE known IN
     /\ known' = Record(k, e)
     /\ bad' = IF Acceptable(k, e) \/ Len(bad) >= 30 THEN bad ELSE Append(bad, l)

Spec == Init /\ [][Consume]_<<l, bad, known>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
