---------------------------- MODULE ReaderTrace -----------------------------
(* Recorded reader histories: the positions the reader may be at are tracked, *)
(* an event no such position explains is rejected.                            *)
EXTENDS Reader, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, o, at    \* o: the line that opened the current reader
buf == Trace[o].buf

Step(e) ==   \* the positions after e; {} means e is impossible
  CASE e.op = "open" -> {StartPos(e.buf, e.start)}
    [] e.op = "raw" -> UNION { LET x == RawRead(buf, p, e.k) IN IF Explains(x, e.r, e.kind, e.v) THEN x.next ELSE {} : p \in at }
    [] e.op = "val" -> UNION { LET x == ValRead(e.t, buf, p) IN IF Explains(x, e.r, e.kind, e.v) THEN x.next ELSE {} : p \in at }

Init == l = 1 /\ bad = <<>> /\ o = 1 /\ at = {0}

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
         s == IF e.op # "open" /\ at = {} THEN {} ELSE Step(e) IN
     /\ o' = IF e.op = "open" THEN l ELSE o
     /\ at' = s
     /\ bad' = IF s = {} /\ at # {} /\ Len(bad) < 30 THEN Append(bad, l) ELSE bad

Spec == Init /\ [][Consume]_<<l, bad, o, at>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
