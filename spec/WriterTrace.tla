---------------------------- MODULE WriterTrace -----------------------------
(* Recorded serializations into scripted writers. *)
EXTENDS Writer, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, enc, got, fault

Init == l = 1 /\ bad = <<>> /\ enc = <<>> /\ got = <<>> /\ fault = FALSE

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.op = "begin" -> /\ enc' = Encode(e.t, e.v) /\ got' = <<>> /\ fault' = FALSE /\ UNCHANGED bad
       [] e.op = "w" ->
            /\ got' = got \o e.took
            /\ fault' = (fault \/ e.how # "ok")
            /\ bad' = IF IsPrefixOf(got', enc) \/ Len(bad) >= 30 THEN bad ELSE Append(bad, l)
            /\ UNCHANGED enc
       [] e.op = "end" ->
            /\ bad' = IF MayReport(enc, got, fault, e.r, e.n) \/ Len(bad) >= 30 THEN bad ELSE Append(bad, l)
            /\ UNCHANGED <<enc, got, fault>>

Spec == Init /\ [][Consume]_<<l, bad, enc, got, fault>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
