-------------------------------- MODULE E2E ---------------------------------
(***************************************************************************)
(* One direction of a connection, from the queue of outgoing messages to   *)
(* the messages taken out at the far end.                                  *)
(*                                                                         *)
(* Messages [id, len] are queued; a drain moves the whole queue to the     *)
(* outgoing stream (len bytes per frame); the stream is cut into packets   *)
(* wherever the sender likes, each packet is one transport message; the    *)
(* receiver accepts packets in order only, appends their content to its    *)
(* own stream and takes whole frames from the front of it.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

Fresh == [q |-> <<>>,       \* queued
          out |-> <<>>,     \* drained, in order
          put |-> 0,        \* bytes of the outgoing stream already in packets
          size |-> 0,       \* bytes of the outgoing stream
          pk |-> <<>>,      \* packets sent: their lengths
          in |-> 0,         \* packets accepted
          rx |-> 0,         \* bytes received
          pos |-> 0,        \* bytes taken
          n |-> 0]          \* messages taken

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s).len + Total(Tail(s))

Queue(c, m) == [c EXCEPT !.q = Append(@, m)]
Drain(c) == [c EXCEPT !.out = @ \o c.q, !.size = @ + Total(c.q), !.q = <<>>]
Pending(c) == c.size - c.put
Send(c, k) == [c EXCEPT !.put = @ + k, !.pk = Append(@, k)]
Accepts(c, i) == i = c.in + 1 /\ i <= Len(c.pk)
Deliver(c, i) == IF Accepts(c, i) THEN [c EXCEPT !.in = i, !.rx = @ + c.pk[i]] ELSE c
HasFrame(c) == c.n < Len(c.out) /\ c.pos + c.out[c.n + 1].len <= c.rx
Take(c) == IF HasFrame(c) THEN [c EXCEPT !.pos = @ + c.out[c.n + 1].len, !.n = @ + 1] ELSE c
NextMessage(c) == c.out[c.n + 1]

(* A certificate made for one server's key, looked at with another *)
CertOk(holder, used, byAuthority, inWindow) == holder = used /\ byAuthority /\ inWindow
=============================================================================
