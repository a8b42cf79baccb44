------------------------------ MODULE MCQueue -------------------------------
(* Every interleaving of queueing and draining threads: each message is      *)
(* returned by exactly one drain, in order; a drain returns what was queued  *)
(* at an instant of its call.  Sequential scripts over two queues are        *)
(* printed and replayed on the real code.                                    *)
EXTENDS Queue, Json, TLC
CONSTANTS Pushers, Drainers, MaxMsgs, MaxDrains, EmitScripts

VARIABLES c, pushed, drained, ndrains, loc
vars == <<c, pushed, drained, ndrains, loc>>
(* pushed: all messages in order of queueing; drained: results in the order the drains took effect *)

Init == /\ c = [q |-> <<>>, d |-> <<>>] /\ pushed = <<>> /\ drained = <<>> /\ ndrains = 0
        /\ loc = [k \in Drainers |-> <<>>]

DoPush(p) == /\ Len(pushed) < MaxMsgs
             /\ LET m == <<p, Len(pushed)>> IN c' = Push(c, m) /\ pushed' = Append(pushed, m)
             /\ UNCHANGED <<drained, ndrains, loc>>
DoCall(k) == /\ k \notin DOMAIN c.d /\ ndrains < MaxDrains
             /\ c' = Call(c, k) /\ ndrains' = ndrains + 1
             /\ loc' = [loc EXCEPT ![k] = <<Len(pushed)>>]
             /\ UNCHANGED <<pushed, drained>>
DoCapture(k) == /\ k \in DOMAIN c.d /\ ~c.d[k].done
                /\ c' = Capture(c, k) /\ drained' = Append(drained, c.q) /\ UNCHANGED <<pushed, ndrains, loc>>
DoReturn(k) == /\ k \in DOMAIN c.d /\ c.d[k].done /\ c' = Return(c, k) /\ UNCHANGED <<pushed, drained, ndrains, loc>>

Next == (\E p \in Pushers : DoPush(p)) \/ (\E k \in Drainers : DoCall(k) \/ DoCapture(k) \/ DoReturn(k))
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
ExactlyOnceInOrder == Flat(drained) \o c.q = pushed
(* a captured result ends at a push that happened no earlier than the call *)
NothingMissed == \A k \in DOMAIN c.d : c.d[k].done => Len(Flat(drained)) >= loc[k][1]
LeavesEmpty == [][ \A k \in Drainers : (k \in DOMAIN c.d /\ ~c.d[k].done /\ k \in DOMAIN c'.d /\ c'.d[k].done) => c'.q = <<>> ]_vars

(* The histories are those of Drains.tla, whose guarantees are proved for every number of threads, messages and drains. *)
D == INSTANCE Drains WITH pushed <- Len(pushed), upto <- Len(Flat(drained)),
  caps <- [i \in DOMAIN drained |-> <<Len(Flat(SubSeq(drained, 1, i - 1))), Len(Flat(SubSeq(drained, 1, i)))>>]
Histories == D!DSpec

-----------------------------------------------------------------------------
(* Sequential scripts: 1, 2 queue on queue A, B; 3, 4 drain A, B *)
SInit == c = <<>> /\ pushed = <<>> /\ drained = <<>> /\ ndrains = 0 /\ loc = <<>>
SNext == /\ Len(c) < MaxMsgs /\ \E o \in 1..4 : c' = Append(c, o) /\ UNCHANGED <<pushed, drained, ndrains, loc>>
SSpec == SInit /\ [][SNext]_vars
SEmit == (EmitScripts /\ Len(c) = MaxMsgs) => PrintT("BEH " \o ToJson(c))
=============================================================================
