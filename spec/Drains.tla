------------------------------- MODULE Drains -------------------------------
(***************************************************************************)
(* The outgoing queue seen through its history: messages are numbered in   *)
(* the order they were queued, and a drain that takes effect takes the     *)
(* numbers queued and not yet taken.  With any number of threads, of       *)
(* messages and of drains (a drain's call and return are where it likes    *)
(* around the instant it takes effect).  MCQueue checks that the queue of  *)
(* Queue.tla behaves like this module (its property Histories).            *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES pushed, upto, caps    \* how many queued, how many of them taken, <<from, to>> per drain
dvars == <<pushed, upto, caps>>

DInit == pushed = 0 /\ upto = 0 /\ caps = <<>>
DPush == pushed' = pushed + 1 /\ UNCHANGED <<upto, caps>>
DTake == caps' = Append(caps, <<upto, pushed>>) /\ upto' = pushed /\ UNCHANGED pushed
DNext == DPush \/ DTake
DSpec == DInit /\ [][DNext]_dvars

In(j, c) == c[1] < j /\ j <= c[2]

DType == pushed \in Nat /\ upto \in Nat /\ caps \in Seq(Nat \X Nat) /\ upto <= pushed
(* a message taken was taken by one drain and no other; an untaken one by none; drains take in order *)
EachOnce == /\ \A j \in 1..upto : \E i \in 1..Len(caps) : In(j, caps[i])
            /\ \A i \in 1..Len(caps) : caps[i][1] <= caps[i][2] /\ caps[i][2] <= upto
            /\ \A i, k \in 1..Len(caps) : i < k => caps[i][2] <= caps[k][1]
=============================================================================
