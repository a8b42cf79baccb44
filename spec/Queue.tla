------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* The outgoing queue of a connection.  Queueing appends atomically; a     *)
(* drain takes everything queued at one instant between its call and its   *)
(* return.  A drain in progress has either not taken effect ("open") or    *)
(* has captured a sequence of messages.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(* configuration: q - queued messages; d - function from drains in progress to captures *)
Open == [done |-> FALSE, took |-> <<>>]
Took(s) == [done |-> TRUE, took |-> s]

Push(c, m) == [c EXCEPT !.q = Append(@, m)]
Call(c, k) == [c EXCEPT !.d = [x \in DOMAIN c.d \cup {k} |-> IF x = k THEN Open ELSE c.d[x]]]
Capture(c, k) == [c EXCEPT !.q = <<>>, !.d = [@ EXCEPT ![k] = Took(c.q)]]
Return(c, k) == [c EXCEPT !.d = [x \in DOMAIN c.d \ {k} |-> c.d[x]]]
=============================================================================
