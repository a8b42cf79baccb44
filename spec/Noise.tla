-------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* Noise NX sessions and the network between them.                         *)
(*                                                                         *)
(* Cryptography is ideal: every distinct byte string is an opaque id.  A   *)
(* second handshake message is readable exactly by a session that sent the *)
(* first message it answers, with the same prologue; a transport message   *)
(* exactly by the other end of the same transcript, at the same number of  *)
(* rekeys of that direction and the same message number.                   *)
(*                                                                         *)
(* A session: role, pro(logue), stat(ic key), eph (0: not set), st (the    *)
(* SET of stages it may be in: "s0" nothing exchanged, "s1" first message  *)
(* exchanged, "t" transport, "x" handshake spoilt), a (first message), tr  *)
(* (transcript), and per direction 1 (initiator to responder) and 2: n     *)
(* (message number), k (rekeys), c (cleared); mc (messages exchanged).     *)
(* Several stages are possible only after a refused handshake message,     *)
(* which an implementation may or may not survive.                         *)
(*                                                                         *)
(* The network knows: B (second messages), T (transport messages), H       *)
(* (handshake hashes), E (ephemeral keys used), K (keystreams), wild (messages of sessions *)
(* that are no longer judged).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NZero, NMax, NInc(_)

MinMsg == 16
MaxMsg == 65535
MinA == 32
MinB == 96

NoWorld == [sess |-> <<>>, B |-> {}, T |-> {}, H |-> {}, E |-> {}, K |-> {}, wild |-> {}]

NewSession(role, pro, stat) ==
  [role |-> role, pro |-> pro, stat |-> stat, eph |-> 0, st |-> {"s0"}, a |-> 0, tr |-> <<>>, rs |-> 0,
   n |-> <<NZero, NZero>>, k |-> <<0, 0>>, c |-> <<FALSE, FALSE>>, mc |-> 0, odd |-> FALSE, late |-> FALSE, lost |-> FALSE]

SendDir(x) == IF x.role = "I" THEN 1 ELSE 2
RecvDir(x) == IF x.role = "I" THEN 2 ELSE 1
BadSize(len) == len < MinMsg \/ len > MaxMsg
KeyOf(x, d) == <<x.tr, d, x.k[d]>>

(* One outcome of a call: result, session afterwards, what was delivered (-1: not judged), *)
(* and the clause of the specification it comes from.                                       *)
Out(r, x, out, tag) == [r |-> r, x |-> x, out |-> out, tag |-> tag]
Same(x, st, tag) == Out("err", [x EXCEPT !.st = {st}], -1, tag)

Begun(x, m) == [x EXCEPT !.st = {"s1"}, !.a = m, !.mc = @ + 1]
Done(x, m, rs) == [x EXCEPT !.st = {"t"}, !.tr = <<x.pro, x.a, m>>, !.rs = rs, !.mc = @ + 1,
                            !.n = <<NZero, NZero>>, !.k = <<0, 0>>, !.c = <<FALSE, FALSE>>]
Step(x, d) == [x EXCEPT !.n[d] = NInc(@), !.mc = @ + 1]

-----------------------------------------------------------------------------
(* Receiving message q = [m, len, fb (its ephemeral key is a forbidden value), pay (its cleartext tail)] *)

RecvAt(w, x, q, st) ==
  IF BadSize(q.len) THEN {Same(x, st, "size")}
  ELSE CASE (st = "s0" /\ x.role = "I") \/ (st \in {"s1"} /\ x.role = "R") -> {Same(x, st, "turn")}
    [] st = "s0" /\ x.role = "R" ->
         IF q.len < MinA THEN {Same(x, st, "size")}
         ELSE IF q.fb THEN {Out("err", [x EXCEPT !.st = {"s0", "x"}], -1, "forb")}
         ELSE {Out("ok", Begun(x, q.m), q.pay, "genA")}
    [] st = "s1" /\ x.role = "I" ->
         IF q.len < MinB THEN {Same(x, st, "size")}
         ELSE LET g == { b \in w.B : b.m = q.m /\ b.a = x.a /\ b.pro = x.pro } IN
              IF q.fb THEN {Out("err", [x EXCEPT !.st = {"s1", "x"}], -1, "forb")}
              ELSE IF g = {} THEN {Out("err", [x EXCEPT !.st = {"s1", "x"}], -1, "badB")}
              ELSE LET b == CHOOSE b \in g : TRUE IN
                   IF b.fbs THEN {Out("err", [x EXCEPT !.st = {"s1", "x"}], -1, "forb")}
                   ELSE {Out("ok", Done(x, q.m, b.stat), b.pl, "genB")}
                        \cup (IF x.odd THEN {Out("err", [x EXCEPT !.st = {"s1", "x"}], -1, "badB")} ELSE {})
    [] st = "x" -> {Same(x, st, "spoilt")}
    [] st = "t" ->
         LET d == RecvDir(x) IN
         IF x.c[d] THEN {Same(x, st, "clear")}
         ELSE IF x.n[d] = NMax THEN {Same(x, st, "nonce")}
         ELSE LET g == { r \in w.T : r.m = q.m /\ r.key = KeyOf(x, d) /\ r.n = x.n[d] } IN
              IF g = {} THEN {Same(x, st, "badT")}
              ELSE {Out("ok", Step(x, d), (CHOOSE r \in g : TRUE).pl, "genT")}

RecvSet(w, x, q) == UNION { RecvAt(w, x, q, st) : st \in x.st }

-----------------------------------------------------------------------------
(* Sending with a buffer of len bytes, producing message m *)

SendAt(x, len, m, st) ==
  IF BadSize(len) THEN {Same(x, st, "size")}
  ELSE CASE (st = "s0" /\ x.role = "R") \/ (st = "s1" /\ x.role = "I") -> {Same(x, st, "turn")}
    [] st = "s0" /\ x.role = "I" ->
         IF len < MinA THEN {Same(x, st, "size")} ELSE {Out("ok", Begun(x, m), -1, "genA")}
    [] st = "s1" /\ x.role = "R" ->
         IF len < MinB THEN {Same(x, st, "size")} ELSE {Out("ok", Done(x, m, 0), -1, "genB")}
    [] st = "x" -> {Same(x, st, "spoilt")}
    [] st = "t" ->
         LET d == SendDir(x) IN
         IF x.c[d] THEN {Same(x, st, "clear")}
         ELSE IF x.n[d] = NMax THEN {Same(x, st, "nonce")}
         ELSE {Out("ok", Step(x, d), -1, "genT")}

SendSet(x, len, m) == UNION { SendAt(x, len, m, st) : st \in x.st }

(* What the network learns from a successful send of m with payload pl *)
Learn(w, x, m, pl) ==   \* x: the session before the send
  CASE x.st = {"s1"} /\ x.role = "R" -> [w EXCEPT !.B = @ \cup {[m |-> m, a |-> x.a, pro |-> x.pro, stat |-> x.stat, fbs |-> FALSE, pl |-> pl]}]
    [] x.st = {"t"} -> LET d == SendDir(x) IN [w EXCEPT !.T = @ \cup {[m |-> m, key |-> KeyOf(x, d), n |-> x.n[d], pl |-> pl]}]
    [] OTHER -> w

-----------------------------------------------------------------------------
(* A connection encryptor handling a handshake message: it receives, then sends in the same buffer. *)
(* Outcomes: result, session afterwards, mid (the session between the two, when it got that far).   *)
HandleSet(v, x, q, m2) ==
  LET rec == RecvSet(v, x, q) IN
  { [r |-> "err", x |-> o.x, mid |-> o.x, tag |-> o.tag] : o \in { o \in rec : o.r = "err" } }
  \cup UNION { { [r |-> p.r, x |-> p.x, mid |-> o.x, tag |-> p.tag] : p \in SendSet(o.x, q.len, m2) } : o \in { o \in rec : o.r = "ok" } }

-----------------------------------------------------------------------------
(* Rekeying and clearing a direction; before the transport stage there is no direction yet *)
Rekey(x, d) == IF x.st = {"t"} /\ ~x.c[d] THEN [x EXCEPT !.k[d] = @ + 1] ELSE x
Clear(x, d) == IF x.st = {"t"} THEN [x EXCEPT !.c[d] = TRUE] ELSE x

(* Setting the ephemeral key: used in the handshake message still to be sent.  Set after its message was sent *)
(* (odd) an initiator may be unable to read the answer; set in transport (late) it may just stay there.       *)
SetEph(x, e) == [x EXCEPT !.eph = e, !.odd = @ \/ (x.role = "I" /\ x.st # {"s0"}), !.late = @ \/ "t" \in x.st]

-----------------------------------------------------------------------------
(* Secrets, as <<what, direction, rekeys>>: "s" and "e" the private static and ephemeral keys, "hs" the  *)
(* handshake's chaining and cipher keys, "key" the key of a direction after that many rekeys.            *)
(* What a session may still hold:                                                                        *)
MayHold(x) ==
  IF x.st = {"t"} THEN { <<"key", d, x.k[d]>> : d \in { d \in 1..2 : ~x.c[d] } } \cup (IF x.late THEN {<<"e", 0, 0>>} ELSE {})
  ELSE {<<"s", 0, 0>>, <<"e", 0, 0>>, <<"hs", 0, 0>>}
=============================================================================
