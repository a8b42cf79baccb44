------------------------------ MODULE CertTrace -----------------------------
(* Recorded verifications (C18) and time conversions (C19), judged against Cert.tla. *)
EXTENDS Cert, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

(* Times: [neg, d, ns], whole seconds as four base-65536 digits, most significant first, and nanoseconds; *)
(* neg: that long before the epoch.                                                                       *)
RECURSIVE DLess(_, _, _)
DLess(a, b, i) == IF i > 4 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE DLess(a, b, i + 1)
IsZero(t) == t.ns = 0 /\ \A i \in 1..4 : t.d[i] = 0
Less(a, b) == (a.d # b.d /\ DLess(a.d, b.d, 1)) \/ (a.d = b.d /\ a.ns < b.ns)
TBefore(a, b) ==
  IF IsZero(a) /\ IsZero(b) THEN FALSE
  ELSE IF a.neg /\ ~IsZero(a) THEN (IF b.neg /\ ~IsZero(b) THEN Less(b, a) ELSE TRUE)
  ELSE IF b.neg /\ ~IsZero(b) THEN FALSE ELSE Less(a, b)
Secs(d) == [neg |-> FALSE, d |-> d, ns |-> 0]
Fits32(t) == (~t.neg \/ IsZero(t)) /\ t.d[1] = 0 /\ t.d[2] = 0

VARIABLES l, bad

Body(x) == [v |-> x.v, from |-> Secs(x.from), until |-> Secs(x.until), stat |-> x.stat]

Holds(e) ==
  CASE e.op = "verify" ->
         LET sig == [by |-> e.sig.by, over |-> Body(e.sig)] IN
         e.r = (IF e.point /\ Verifies(e.auth, Body(e), sig, e.now) THEN "ok" ELSE "err")
    [] e.op = "assemble" ->
         LET good == IsText58(e.text) /\ Len(Decode58(e.text)) = 32 IN
         e.r = (IF good /\ Decode58(e.text) = e.bytes /\ e.point THEN "ok" ELSE "err")
    [] e.op = "time" ->
         IF Fits32(e.t) THEN e.r = "ok" /\ e.out = e.t.d ELSE e.r = "err"
    [] e.op = "now" ->
         IF Fits32(e.t) THEN e.r = "ok" /\ e.out = e.t.d ELSE e.r = "err"

Init == l = 1 /\ bad = <<>>
Consume == /\ l <= Len(Trace)
           /\ l' = l + 1
           /\ bad' = IF ~Holds(Trace[l]) /\ Len(bad) < 30 THEN Append(bad, l) ELSE bad
Spec == Init /\ [][Consume]_<<l, bad>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
