------------------------------- MODULE Pieces -------------------------------
(***************************************************************************)
(* A reader over a buffer of any size from any offset, seen through the    *)
(* pieces it hands out: <<from, to>>, half open.  A failed read may leave  *)
(* the position anywhere from where it was to the end.  MCReader checks    *)
(* that the reader of Reader.tla behaves like this module (PiecesOnly).    *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES Size, From, at, out    \* the first two never change
pvars == <<Size, From, at, out>>

PInit == Size \in Nat /\ From \in Nat /\ at = From /\ out = <<>>
PRead(to) == UNCHANGED <<Size, From>> /\ at' = to /\ out' = Append(out, <<at, to>>)
PFail(to) == at' = to /\ UNCHANGED <<Size, From, out>>
PNext == \E to \in at..Size : PRead(to) \/ PFail(to)
PSpec == PInit /\ [][PNext]_pvars

PType == Size \in Nat /\ From \in Nat /\ at \in Nat /\ out \in Seq(Nat \X Nat) /\ From <= at
Apart == /\ \A i \in 1..Len(out) : From <= out[i][1] /\ out[i][1] <= out[i][2] /\ out[i][2] <= Size /\ out[i][2] <= at
         /\ \A i, k \in 1..Len(out) : i < k => out[i][2] <= out[k][1]
(* beyond the buffer nothing is ever handed out *)
Beyond == From > Size => out = <<>> /\ at = From
=============================================================================
