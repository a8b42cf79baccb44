------------------------------ MODULE MCMemory ------------------------------
(***************************************************************************)
(* A session as the slots of memory its secrets live in, next to the       *)
(* abstract session of Noise.tla: whatever is called in whatever order,    *)
(* the slots hold only what the abstract session may still hold, and all   *)
(* that it still needs.                                                    *)
(***************************************************************************)
EXTENDS Noise, TLC
CONSTANTS Depth, Role
MInc(n) == n + 1

VARIABLES x, slot, steps
vars == <<x, slot, steps>>
None == <<"none", 0, 0>>
Slots == {"s", "e", "ss", "c1", "c2"}

Init ==
  /\ x = NewSession(Role, 1, 10)
  /\ slot = [i \in Slots |-> IF i = "s" THEN <<"s", 0, 0>> ELSE None]
  /\ steps = 0

(* The network has an answer to first message 7 and transport messages of every number *)
W == [NoWorld EXCEPT !.B = {[m |-> 8, a |-> 7, pro |-> 1, stat |-> 11, fbs |-> FALSE, pl |-> 0]},
      !.T = { [m |-> 20 + n, key |-> <<<<1, 7, 8>>, d, k>>, n |-> n, pl |-> 0] : d \in 1..2, k \in 0..Depth, n \in 0..Depth }]

After(y) ==   \* what the slots become when the session becomes y
  CASE y.st = {"t"} /\ x.st # {"t"} -> [s |-> None, e |-> None, ss |-> None, c1 |-> <<"key", 1, 0>>, c2 |-> <<"key", 2, 0>>]
    [] y.st = {"s1"} /\ x.st = {"s0"} /\ Role = "I" -> [slot EXCEPT !["e"] = <<"e", 0, 0>>]
    [] y.st = {"x"} -> [slot EXCEPT !["ss"] = <<"hs", 0, 0>>]
    [] OTHER -> [slot EXCEPT !["c1"] = IF x.st = {"t"} THEN IF y.c[1] THEN None ELSE <<"key", 1, y.k[1]>> ELSE @,
                             !["c2"] = IF x.st = {"t"} THEN IF y.c[2] THEN None ELSE <<"key", 2, y.k[2]>> ELSE @]

Becomes(y) == x' = y /\ slot' = After(y)

Next ==
  /\ steps < Depth
  /\ steps' = steps + 1
  /\ \/ \E len \in {8, 200} : \E m \in {7, 8} : \E o \in SendSet(x, len, m) : Becomes(o.x)
     \/ \E len \in {8, 200} : \E m \in {7, 8} \cup (20..(20 + Depth)) : \E o \in RecvSet(W, x, [m |-> m, len |-> len, fb |-> FALSE, pay |-> 0]) :
          \E z \in o.x.st : Becomes([o.x EXCEPT !.st = {z}])
     \/ \E d \in 1..2 : Becomes(Rekey(x, d)) \/ Becomes(Clear(x, d))
     \/ Becomes([x EXCEPT !.eph = 5])

Spec == Init /\ [][Next]_vars

Holding == { slot[i] : i \in Slots } \ {None}
OnlyAllowed == Holding \subseteq MayHold(x)
NothingBack == [][ x.st = {"t"} => \A h \in {"s", "e", "hs"} : <<h, 0, 0>> \notin Holding' ]_vars
OldKeysGone == [][ \A d \in 1..2 : (x.st = {"t"} /\ x'.k[d] # x.k[d]) => <<"key", d, x.k[d]>> \notin Holding' ]_vars
StillUseful == x.st = {"t"} => \A d \in 1..2 : x.c[d] \/ <<"key", d, x.k[d]>> \in Holding
=============================================================================
