---------------------------- MODULE QueueTrace ------------------------------
(***************************************************************************)
(* Recorded concurrent histories of one queue: pushes (logged in the order *)
(* they took effect), drain calls and returns.  The configurations the     *)
(* queue may be in are tracked; a return no configuration explains is      *)
(* rejected.  A call carries what the drain will return (known when the    *)
(* log is written), which only prunes captures that could not explain it.  *)
(***************************************************************************)
EXTENDS Queue, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad, confs, will

(* everything reachable by letting open drains take effect now *)
RECURSIVE Close(_, _)
Close(S, W) ==
  LET ok == UNION { { Capture(c, k) : k \in { k \in DOMAIN c.d : ~c.d[k].done /\ c.q = W[k] } } : c \in S } IN
  IF ok \subseteq S THEN S ELSE Close(S \cup ok, W)

Empty == [q |-> <<>>, d |-> <<>>]
SetW(W, k, r) == [x \in DOMAIN W \cup {k} |-> IF x = k THEN r ELSE W[x]]

After(e) ==
  CASE e.op = "fresh" -> {Empty}
    [] e.op = "push" -> { Push(c, e.m) : c \in confs }
    [] e.op = "call" -> { Call(c, e.k) : c \in confs }
    [] e.op = "ret"  -> { Return(c, e.k) : c \in { c \in confs : c.d[e.k].done /\ c.d[e.k].took = e.res } }
    [] e.op = "left" -> { c \in confs : c.q = e.res }
    [] e.op = "bulk" -> IF e.same /\ e.out = e.n /\ e.left = 0 THEN confs ELSE {}

Init == l = 1 /\ bad = <<>> /\ confs = {Empty} /\ will = <<>>

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l]
         W == CASE e.op = "fresh" -> <<>> [] e.op = "call" -> SetW(will, e.k, e.res) [] OTHER -> will
         s == IF confs = {} /\ e.op # "fresh" THEN {} ELSE Close(After(e), W) IN
     /\ will' = W
     /\ confs' = s
     /\ bad' = IF s = {} /\ confs # {} /\ Len(bad) < 30 THEN Append(bad, l) ELSE bad

Spec == Init /\ [][Consume]_<<l, bad, confs, will>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
