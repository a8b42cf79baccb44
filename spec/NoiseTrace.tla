----------------------------- MODULE NoiseTrace -----------------------------
(***************************************************************************)
(* Recorded histories of real Noise sessions (and connection encryptors),  *)
(* judged against Noise.tla for the property PROP.  Each event carries the *)
(* result of the call and what the session shows afterwards.  A clause of  *)
(* the specification that is broken but belongs to other properties only   *)
(* takes the session out of the judgement.                                 *)
(***************************************************************************)
EXTENDS Noise, Keys, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

(* Message numbers are four base-65536 digits, most significant first. *)
TZero == <<0, 0, 0, 0>>
TMax  == <<65535, 65535, 65535, 65535>>
RECURSIVE AddAt(_, _, _)
AddAt(s, i, c) == IF i = 0 \/ c = 0 THEN s
                  ELSE LET v == s[i] + c IN AddAt([s EXCEPT ![i] = v % 65536], i - 1, v \div 65536)
TInc(s) == AddAt(s, 4, 1)
TAdd(s, k) == AddAt(s, 4, k)

HandshakeProps == {"C11", "C12", "C14", "C15", "C16", "C17", "C21"}
PropsOf(tag) ==
  CASE tag = "size"   -> {"C16", "C21"}
    [] tag = "turn"   -> {"C11", "C21"}
    [] tag = "spoilt" -> {"C11", "C12", "C21"}
    [] tag \in {"genA", "genB"} -> HandshakeProps
    [] tag = "badB"   -> {"C12", "C21"}
    [] tag = "forb"   -> {"C17"}
    [] tag = "genT"   -> {"C14", "C15", "C16", "C21"}
    [] tag = "badT"   -> {"C14", "C15", "C21"}
    [] tag = "clear"  -> {"C15"}
    [] tag = "nonce"  -> {"C15"}
TagsProps(O) == UNION { PropsOf(o.tag) : o \in O }

(* A message composed by the attacker of Attack.tla, and what the initiator made of it: the remote key it shows, whether its hash is the one of this *)
(* course, and whether a message each way passes under the keys the attacker arrives at                                                                  *)
A == INSTANCE Attack
AttackOk(e) ==
  LET V == A!Verdict(e.e, e.c1, e.c2) IN
  IF V = {} THEN e.r = "err" /\ ~e.tp /\ e.rs = "none" /\ e.h \in {"none", "hidden"}
  ELSE LET X == CHOOSE X \in V : TRUE
           mine == IF X \in {"SX", "EX"} THEN "ok" ELSE "err" IN
       e.r = "ok" /\ e.tp /\ e.rs = X /\ e.h \in {"same", "hidden"} /\ e.in \in {mine, "hidden"} /\ e.out = mine

VARIABLES l, bad, w

-----------------------------------------------------------------------------
(* What a session shows after a call: o = [tp, h, rs, mc, n1, n2] (0: absent; n: <<>> when not observed) *)
ShowBroken(v, x, o) ==
  LET t == x.st = {"t"} IN
  (IF o.tp = t THEN {} ELSE {"C11", "C12", "C21"})
  \cup (IF (~t => o.h \in {0, -1} /\ o.rs = 0) /\ (t => o.h # 0 /\ (x.role = "I" => o.rs # 0)) THEN {} ELSE {"C11", "C21"})
  \cup (IF t /\ o.h \notin {0, -1} /\ \E p \in v.H : (p[1] = x.tr) # (p[2] = o.h) THEN {"C12", "C21"} ELSE {})
  \cup (IF t /\ x.role = "I" /\ o.rs # 0 /\ x.rs # -1 /\ x.rs # o.rs THEN {"C12", "C21"} ELSE {})
  \cup (IF o.mc = -1 \/ o.mc = x.mc THEN {} ELSE {"C11"})
  \cup (IF t /\ o.n # <<>> /\ \E d \in 1..2 : ~x.c[d] /\ o.n[d] # x.n[d] THEN {"C15", "C14"} ELSE {})

(* Result of an event: the world afterwards and the properties it breaks *)
Res(v, b) == [w |-> v, broken |-> b]
Lose(v, s) == [v EXCEPT !.sess[s].lost = TRUE]
Taint(v, m) == [v EXCEPT !.wild = @ \cup {m}]

Settle(v, s, x, o, b) ==   \* session s becomes x, shows o; b: broken so far
  LET b2 == b \cup ShowBroken(v, x, o)
      v2 == [v EXCEPT !.sess[s] = [x EXCEPT !.lost = (b2 # {})]] IN
  Res(IF x.st = {"t"} /\ o.h \notin {0, -1} THEN [v2 EXCEPT !.H = @ \cup {<<x.tr, o.h>>}] ELSE v2, b2)

Merge(O) == LET o == CHOOSE o \in O : TRUE IN [o.x EXCEPT !.st = UNION { p.x.st : p \in O }]

Msg(e) == [m |-> e.m, len |-> e.len, fb |-> e.eb \in Small, pay |-> e.pay]

(* Ephemeral key e of a handshake message sent by x *)
EphBroken(v, x, e) ==
  IF x.eph # 0 THEN (IF e = x.eph THEN {} ELSE {"C13", "C17"})
  ELSE IF e \in v.E THEN {"C17"} ELSE {}

SendEv(e) ==
  LET x == w.sess[e.s] IN
  IF x.lost THEN Res(Taint(w, e.m), {})
  ELSE IF e.r = "panic" THEN Res(Lose(w, e.s), HandshakeProps)
  ELSE LET all == SendSet(x, e.len, e.m)
           O == { o \in all : o.r = e.r } IN
  IF O = {} THEN Res(Taint(Lose(w, e.s), e.m), TagsProps(all))
  ELSE LET y == Merge(O)
           hs == e.r = "ok" /\ x.st # {"t"}
           b == (IF hs THEN EphBroken(w, x, e.e) ELSE {})
                \cup (IF e.r = "ok" /\ e.ks # 0 /\ e.ks \in w.K THEN {"C15"} ELSE {})   \* same key and nonce as before
           v1 == IF e.r = "ok" THEN Learn(w, x, e.m, e.pl) ELSE w
           v2 == IF hs THEN [v1 EXCEPT !.E = @ \cup {e.e}] ELSE IF e.ks # 0 THEN [v1 EXCEPT !.K = @ \cup {e.ks}] ELSE v1 IN
       Settle(v2, e.s, y, e.obs, b)

RecvEv(e) ==
  LET x == w.sess[e.s] IN
  IF x.lost THEN Res(w, {})
  ELSE IF e.r = "panic" THEN Res(Lose(w, e.s), HandshakeProps)
  ELSE IF e.m \in w.wild THEN Res(Lose(w, e.s), {})
  ELSE LET all == RecvSet(w, x, Msg(e))
           O == { o \in all : o.r = e.r } IN
  IF O = {} THEN Res(Lose(w, e.s), TagsProps(all) \cup (IF e.leak THEN {"C14"} ELSE {}))
  ELSE LET y == Merge(O)
           wrong == e.r = "ok" /\ \A o \in O : o.out # -1 /\ o.out # e.out
           b == (IF wrong THEN (IF x.st = {"t"} THEN {"C14", "C15", "C16"} ELSE {"C12", "C16", "C21"}) ELSE {})
                \cup (IF e.r = "err" /\ e.leak THEN {"C14"} ELSE {}) IN
       Settle(w, e.s, y, e.obs, b)

(* Connection encryptor: opening is a send; handling receives, then sends in the same buffer *)
HandleEv(e) ==
  LET x == w.sess[e.s] IN
  IF x.lost THEN Res(Taint(w, e.m2), {})
  ELSE IF e.r = "panic" THEN Res(Lose(w, e.s), HandshakeProps)
  ELSE IF e.m \in w.wild THEN Res(Taint(Lose(w, e.s), e.m2), {})
  ELSE LET all == HandleSet(w, x, Msg(e), e.m2)
           O == { o \in all : o.r = e.r } IN
  IF O = {} THEN Res(Taint(Lose(w, e.s), e.m2), TagsProps(all) \cup {"C21"})
  ELSE LET o == CHOOSE o \in O : TRUE
           y == [o.x EXCEPT !.st = UNION { p.x.st : p \in O }]
           hs == e.r = "ok" /\ o.mid.st # {"t"}
           b == IF hs THEN EphBroken(w, x, e.e) ELSE {}
           v1 == IF e.r = "ok" THEN Learn(w, o.mid, e.m2, -1) ELSE w
           v2 == IF hs THEN [v1 EXCEPT !.E = @ \cup {e.e}] ELSE v1 IN
       Settle(v2, e.s, y, e.obs, b)

NewEv(e) ==
  LET x == [NewSession(e.role, e.pro, e.stat) EXCEPT !.eph = e.eph] IN
  Settle([w EXCEPT !.sess = Append(@, x)], Len(w.sess) + 1, x, e.obs, {})

(* Any number of messages from one end to the other, compared outside; both numbers advance *)
BulkEv(e) ==
  LET x == w.sess[e.s]
      y == w.sess[e.to]
      d == SendDir(x) IN
  IF x.lost \/ y.lost THEN Res(w, {})
  ELSE IF x.st = {"t"} /\ y.st = {"t"} /\ KeyOf(x, d) = KeyOf(y, d) /\ x.n[d] = y.n[d] /\ ~x.c[d] /\ ~y.c[d] /\ RecvDir(y) = d
       THEN IF e.sent = e.k /\ e.got = e.k /\ e.same /\ e.fresh
            THEN LET nn == TAdd(x.n[d], e.k) IN
                 Res([w EXCEPT !.sess[e.s].n[d] = nn, !.sess[e.s].mc = @ + e.k,
                               !.sess[e.to].n[d] = nn, !.sess[e.to].mc = @ + e.k], {})
            ELSE Res(Lose(Lose(w, e.s), e.to), {"C14", "C15", "C16"})
       ELSE Res(Lose(Lose(w, e.s), e.to), {})

(* The same call k times, with messages of one length that are all unknown to the network or all the same.   *)
(* Judged where the specification refuses each of them and leaves the session as it is.                      *)
StormEv(e) ==
  LET x == w.sess[e.s] IN
  IF x.lost THEN Res(w, {})
  ELSE LET q == [m |-> e.m, len |-> e.len, fb |-> FALSE, pay |-> -1]
           all == IF e.call = "send" THEN SendSet(x, e.len, 0) ELSE RecvSet(w, x, q) IN
  IF \A o \in all : o.r = "err" /\ o.x = x
  THEN IF e.errs = e.k THEN Settle(w, e.s, x, e.obs, {}) ELSE Res(Lose(w, e.s), TagsProps(all))
  ELSE Res(Lose(w, e.s), {})

(* k rekeys of one direction at one end *)
RekeysEv(e) ==
  LET x == w.sess[e.s] IN
  IF x.lost THEN Res(w, {})
  ELSE IF e.r = "panic" THEN Res(Lose(w, e.s), HandshakeProps)
  ELSE Settle(w, e.s, IF x.st = {"t"} /\ ~x.c[e.d] THEN [x EXCEPT !.k[e.d] = @ + e.k] ELSE x, e.obs, {})

OtherEv(e) ==
  LET x == w.sess[e.s] IN
  IF x.lost THEN Res(w, {})
  ELSE IF e.r = "panic" THEN Res(Lose(w, e.s), HandshakeProps)
  ELSE CASE e.op = "rekey" -> Settle(w, e.s, Rekey(x, e.d), e.obs, {})
         [] e.op = "clear" -> Settle(w, e.s, Clear(x, e.d), e.obs, {})
         [] e.op = "seteph" -> Settle(w, e.s, SetEph(x, e.e), e.obs, {})
         [] e.op = "setn" -> Settle(w, e.s, [x EXCEPT !.n = e.n], e.obs, {})
         [] e.op = "look" -> Settle(w, e.s, x, e.obs, {})

(* A second message made by another implementation of the protocol *)
CraftEv(e) == Res([w EXCEPT !.B = @ \cup {[m |-> e.m, a |-> e.a, pro |-> e.pro, stat |-> e.stat, fbs |-> e.sb \in Small, pl |-> e.pl]}], {})

(* Secrets found in the memory of session s *)
MemEv(e) ==
  LET x == w.sess[e.s] IN
  Res(w, IF x.lost \/ \A i \in DOMAIN e.held : e.held[i] \in MayHold(x) THEN {} ELSE {"C25"})

(* The ephemeral key of a session elsewhere (another thread or process) *)
EphEv(e) == Res([w EXCEPT !.E = @ \cup {e.e}], IF e.ok /\ e.e \notin w.E THEN {} ELSE {"C17"})

(* Keys (C17) *)
KeyEv(e) ==
  LET ok == CASE e.op = "pk" -> IF e.in \in Small THEN e.r = "err" ELSE e.r = "ok" /\ e.out = e.in
              [] e.op = "pktext" -> IF IsHex64(e.in) /\ UnHex(e.in) \notin Small THEN e.r = "ok" /\ e.out = UnHex(e.in) ELSE e.r = "err"
              [] e.op = "keytext" -> IF IsHex64(e.in) THEN e.r = "ok" ELSE e.r = "err"
              [] e.op = "pair" -> IF \A i \in DOMAIN e.in : e.in[i] = 0 THEN e.r = "err" ELSE e.r = "ok" /\ e.same IN
  Res(w, IF ok THEN {} ELSE {"C17"})

-----------------------------------------------------------------------------
Apply(e) ==
  CASE e.op = "world" -> Res(NoWorld, {})
    [] e.op = "new" -> NewEv(e)
    [] e.op = "send" -> SendEv(e)
    [] e.op = "recv" -> RecvEv(e)
    [] e.op = "handle" -> HandleEv(e)
    [] e.op = "bulk" -> BulkEv(e)
    [] e.op = "storm" -> StormEv(e)
    [] e.op = "rekeys" -> RekeysEv(e)
    [] e.op = "shakes" -> Res(w, IF e.ok = e.k THEN {} ELSE {"C16"})   \* k handshakes with buffers of lengths that must work
    [] e.op = "craft" -> CraftEv(e)
    [] e.op = "eph" -> EphEv(e)
    [] e.op = "mem" -> MemEv(e)
    [] e.op \in {"pk", "pktext", "keytext", "pair"} -> KeyEv(e)
    [] e.op = "nx" -> Res(w, IF e.r = "ok" /\ e.want = e.got THEN {} ELSE {"C13"})
    [] e.op = "attack" -> Res(w, IF AttackOk(e) THEN {} ELSE {"C12", "C21"})
    [] OTHER -> OtherEv(e)

Init == l = 1 /\ bad = <<>> /\ w = NoWorld

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET r == Apply(Trace[l]) IN
     /\ w' = r.w
     /\ bad' = IF Prop \in r.broken /\ Len(bad) < 30 THEN Append(bad, l) ELSE bad

Spec == Init /\ [][Consume]_<<l, bad, w>>
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
