------------------------------ MODULE MCNoise -------------------------------
(***************************************************************************)
(* Noise.tla under an attacker who owns the network: any session may be    *)
(* given any message ever sent, altered or forged ones, at any time.  All  *)
(* histories up to a depth are explored, the guarantees checked, and every *)
(* complete history printed as a script to be replayed on real sessions.   *)
(***************************************************************************)
EXTENDS Noise, Json, TLC
CONSTANTS Setup, Depth, EmitScripts

MInc(n) == n + 1

(* Setup: "pair" one initiator, one responder; "enc" two initiators and a responder behind connection encryptors; "cross" two of each, the second initiator with another
   prologue; "transport" a pair after its handshake *)
S(role, pro, stat) == NewSession(role, pro, stat)
Pair == << S("I", 1, 10), S("R", 1, 11) >>
Cross == << S("I", 1, 10), S("R", 1, 11), S("I", 2, 13), S("R", 1, 12) >>
Ready == << Done(Begun(S("I", 1, 10), 1), 2, 11), Done(Begun(S("R", 1, 11), 1), 2, 0) >>
Enc == << S("I", 1, 10), S("R", 1, 11), S("I", 1, 12) >>
BReady == {[m |-> 2, a |-> 1, pro |-> 1, stat |-> 11, fbs |-> FALSE, pl |-> 2]}

VARIABLES w, hist, sent, got
vars == <<w, hist, sent, got>>
(* sent: the messages, in order of sending, as [by]; got[s]: what s accepted in transport, <<direction number, payload>> *)

Init ==
  /\ hist = <<>>
  /\ CASE Setup = "pair" -> w = [NoWorld EXCEPT !.sess = Pair] /\ sent = <<>>
       [] Setup = "enc" -> w = [NoWorld EXCEPT !.sess = Enc] /\ sent = <<>>
       [] Setup = "cross" -> w = [NoWorld EXCEPT !.sess = Cross] /\ sent = <<>>
       [] OTHER -> w = [NoWorld EXCEPT !.sess = Ready, !.B = BReady] /\ sent = <<1, 2>>
  /\ got = [s \in DOMAIN w.sess |-> <<>>]

Forged == 999
Good == 200      \* an ordinary size
Short == 8

Do(op) == hist' = Append(hist, op)

SendOp(s, len) ==
  LET x == w.sess[s]
      m == Len(sent) + 1 IN
  \E o \in SendSet(x, len, m) :
    /\ w' = [(IF o.r = "ok" THEN Learn(w, x, m, m) ELSE w) EXCEPT !.sess[s] = o.x]
    /\ sent' = IF o.r = "ok" THEN Append(sent, s) ELSE sent
    /\ UNCHANGED got
    /\ Do(<<IF len = Good THEN 1 ELSE 5, s>>)

RecvOp(s, m, len) ==
  LET x == w.sess[s] IN
  \E o \in RecvSet(w, x, [m |-> m, len |-> len, fb |-> FALSE, pay |-> m]) :
    /\ \E z \in o.x.st : w' = [w EXCEPT !.sess[s] = [o.x EXCEPT !.st = {z}]]
    /\ got' = IF o.r = "ok" /\ x.st = {"t"} THEN [got EXCEPT ![s] = Append(@, <<x.n[RecvDir(x)], o.out>>)] ELSE got
    /\ UNCHANGED sent
    /\ Do(<<IF len = Good THEN 2 ELSE 6, s, IF m = Forged THEN 0 ELSE m>>)

HandleOp(s, m) ==
  LET x == w.sess[s]
      m2 == Len(sent) + 1 IN
  \E o \in HandleSet(w, x, [m |-> m, len |-> Good, fb |-> FALSE, pay |-> m], m2) :
    /\ \E z \in o.x.st : w' = [(IF o.r = "ok" THEN Learn(w, o.mid, m2, m2) ELSE w) EXCEPT !.sess[s] = [o.x EXCEPT !.st = {z}]]
    /\ sent' = IF o.r = "ok" THEN Append(sent, s) ELSE sent
    /\ UNCHANGED got
    /\ Do(<<7, s, IF m = Forged THEN 0 ELSE m>>)

KeyOp(s, d) ==
  \/ w' = [w EXCEPT !.sess[s] = Rekey(@, d)] /\ UNCHANGED <<sent, got>> /\ Do(<<3, s, d>>)
  \/ w' = [w EXCEPT !.sess[s] = Clear(@, d)] /\ UNCHANGED <<sent, got>> /\ Do(<<4, s, d>>)

EphOp(s) == w' = [w EXCEPT !.sess[s] = SetEph(@, 500 + Len(hist))] /\ UNCHANGED <<sent, got>> /\ Do(<<8, s>>)

Next ==
  /\ Len(hist) < Depth
  /\ \E s \in DOMAIN w.sess :
       \/ SendOp(s, Good)
       \/ Setup = "enc" /\ \E m \in DOMAIN sent \cup {Forged} : HandleOp(s, m)
       \/ Setup # "enc" /\ \E m \in DOMAIN sent \cup {Forged} : RecvOp(s, m, Good)
       \/ Setup \in {"pair", "cross"} /\ (SendOp(s, Short) \/ (sent # <<>> /\ RecvOp(s, Len(sent), Short)))
       \/ Setup = "pair" /\ EphOp(s)
       \/ Setup = "transport" /\ \E d \in 1..2 : KeyOp(s, d)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sess == DOMAIN w.sess
InT(x) == x.st = {"t"}

(* C12, C21 *)
Agreement == \A i \in Sess : (w.sess[i].role = "I" /\ InT(w.sess[i])) =>
  \E r \in Sess : /\ w.sess[r].role = "R" /\ InT(w.sess[r]) /\ w.sess[r].tr = w.sess[i].tr
                  /\ w.sess[r].stat = w.sess[i].rs /\ w.sess[r].pro = w.sess[i].pro
(* C11 *)
InTurn == \A s \in Sess : LET x == w.sess[s] IN
  /\ InT(x) => x.mc >= 2 /\ x.a # 0 /\ x.tr = <<x.pro, x.a, x.tr[3]>>
  /\ x.st = {"s0"} => x.mc = 0 /\ x.tr = <<>>
NeverLost == [][ \A s \in Sess : InT(w.sess[s]) => InT(w'.sess[s]) /\ w'.sess[s].tr = w.sess[s].tr ]_vars
OutOfTurnHarmless == [][ \A s \in Sess : (LET o == hist'[Len(hist')] IN
     o[2] = s /\ o[1] \in {5, 6}) => w'.sess[s] = w.sess[s] ]_vars
SetEphHarmless == [][ LET o == hist'[Len(hist')] IN o[1] = 8 =>
     LET x == w.sess[o[2]]
         y == w'.sess[o[2]] IN y.st = x.st /\ y.mc = x.mc /\ y.a = x.a /\ y.tr = x.tr /\ y.n = x.n ]_vars
(* C14 *)
InOrderOnce == \A s \in Sess : \A i \in DOMAIN got[s] :
  /\ \A j \in DOMAIN got[s] : i < j => got[s][i][1] < got[s][j][1]
  /\ \E r \in w.T : r.key[1] = w.sess[s].tr /\ r.key[2] = RecvDir(w.sess[s]) /\ r.n = got[s][i][1] /\ r.pl = got[s][i][2]
NoGaps == \A s \in Sess : \A i \in DOMAIN got[s] : got[s][i][1] = i - 1
RejectHarmless == [][ \A s \in Sess : LET o == hist'[Len(hist')] IN
     (o[2] = s /\ o[1] = 2 /\ InT(w.sess[s]) /\ got' = got) => w'.sess[s] = w.sess[s] ]_vars
GenuineAccepted == \A x \in { w.sess[s] : s \in Sess } : InT(x) =>
  \A r \in w.T : (r.key = KeyOf(x, RecvDir(x)) /\ r.n = x.n[RecvDir(x)] /\ ~x.c[RecvDir(x)] /\ r.n # NMax) =>
     \A o \in RecvSet(w, x, [m |-> r.m, len |-> Good, fb |-> FALSE, pay |-> 0]) : o.r = "ok" /\ o.out = r.pl
(* C15 *)
NonceUnique == \A r1, r2 \in w.T : (r1.key = r2.key /\ r1.n = r2.n) => r1.m = r2.m
OneDirection == [][ LET o == hist'[Len(hist')] IN o[1] \in {3, 4} =>
     \A s \in Sess : \A d \in 1..2 : ~(s = o[2] /\ d = o[3]) =>
        w'.sess[s].k[d] = w.sess[s].k[d] /\ w'.sess[s].c[d] = w.sess[s].c[d] /\ w'.sess[s].n[d] = w.sess[s].n[d] ]_vars
ClearedStays == [][ \A s \in Sess : \A d \in 1..2 : w.sess[s].c[d] /\ InT(w.sess[s]) => w'.sess[s].c[d] /\ w'.sess[s].n[d] = w.sess[s].n[d] ]_vars
Exhausted == \A s \in Sess : \A d \in 1..2 : w.sess[s].n[d] <= NMax

(* Each direction of an established pair behaves like Channel.tla, whose guarantees are proved for every history. *)
Chan(d) == INSTANCE Channel WITH Payload <- 1..(Depth + 2), Max <- NMax,
  net <- { [n |-> r.n, k |-> r.key[3], pl |-> r.pl] : r \in { r \in w.T : r.key[2] = d } },
  sn <- w.sess[d].n[d], sk <- w.sess[d].k[d], sc <- w.sess[d].c[d],
  rn <- w.sess[3 - d].n[d], rk <- w.sess[3 - d].k[d], rc <- w.sess[3 - d].c[d],
  got <- [i \in DOMAIN got[3 - d] |-> got[3 - d][i][2]]
Channel1 == Chan(1)!CSpec
Channel2 == Chan(2)!CSpec
Emit == (EmitScripts /\ Len(hist) = Depth) => PrintT("BEH " \o ToJson(hist))
=============================================================================
