----------------------------- MODULE E2ETrace -------------------------------
(* Recorded connections, judged against E2E.tla. *)
EXTENDS E2E, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, c, off   \* off: the connection already strayed

Ids(s) == [i \in DOMAIN s |-> s[i].id]

Holds(e, x) ==
  CASE e.op = "conn"    -> e.hs = "ok" /\ e.remote = e.stat
    [] e.op = "queue"   -> e.r = "ok" /\ e.len = 6 + e.payload
    [] e.op = "drain"   -> e.r = "ok" /\ e.ids = Ids(x.q)
    [] e.op = "send"    -> e.r = "ok" /\ e.k <= Pending(x)
    [] e.op = "deliver" -> e.r = (IF Accepts(x, e.i) THEN "ok" ELSE "err") /\ (e.r = "ok" => e.k = x.pk[e.i])
    [] e.op = "take"    -> IF HasFrame(x) THEN e.r = "ok" /\ e.id = NextMessage(x).id ELSE e.r = "err"
    [] e.op = "rekey"   -> e.r = "ok"
    [] e.op = "cert"    -> e.remote = e.stat /\ e.r = (IF CertOk(e.holder, e.used, e.auth, e.win) THEN "ok" ELSE "err")

After(e, x) ==
  CASE e.op = "queue"   -> Queue(x, [id |-> e.id, len |-> e.len])
    [] e.op = "drain"   -> Drain(x)
    [] e.op = "send"    -> Send(x, e.k)
    [] e.op = "deliver" -> Deliver(x, e.i)
    [] e.op = "take"    -> Take(x)
    [] OTHER -> x

Init == l = 1 /\ bad = <<>> /\ c = <<Fresh, Fresh>> /\ off = FALSE
Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
         fresh == e.op = "conn"
         d == IF "d" \in DOMAIN e THEN e.d ELSE 1
         ok == IF off /\ ~fresh THEN FALSE ELSE Holds(e, c[d]) IN
     /\ c' = IF fresh THEN <<Fresh, Fresh>> ELSE IF ok THEN [c EXCEPT ![d] = After(e, @)] ELSE c
     /\ off' = ~ok
     /\ bad' = IF ~ok /\ (fresh \/ ~off) /\ Len(bad) < 30 THEN Append(bad, l) ELSE bad
Spec == Init /\ [][Consume]_<<l, bad, c, off>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
