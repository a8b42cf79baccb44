-------------------------------- MODULE MCCert ------------------------------
(***************************************************************************)
(* Authorities issue certificates, time passes, and an attacker presents   *)
(* any issued signature (or none) with any body, under any authority key.  *)
(***************************************************************************)
EXTENDS Cert, Json, TLC
CONSTANTS EmitScripts, MaxTime

MBefore(a, b) == a < b

Auths == {1, 2}
Bodies == [v : {0, 1}, from : 1..3, until : 2..4, stat : {1, 2}]

VARIABLES now, issued, seen   \* seen: the presentation just made, <<>> otherwise
vars == <<now, issued, seen>>

Init == now = 0 /\ issued = {} /\ seen = <<>>
Issue == /\ issued = {}
         /\ \E a \in Auths, b \in { b \in Bodies : MayIssue(b) } : issued' = {[by |-> a, over |-> b]}
         /\ UNCHANGED <<now, seen>>
Tick == now < MaxTime /\ now' = now + 1 /\ seen' = <<>> /\ UNCHANGED issued
Forged == { [by |-> Nobody, over |-> s.over] : s \in issued }
Present == \E s \in issued \cup Forged, b \in Bodies, a \in Auths :
  /\ seen' = <<a, b, s, Verifies(a, b, s, now)>>
  /\ UNCHANGED <<now, issued>>
Next == Issue \/ (seen = <<>> /\ Present) \/ Tick
Spec == Init /\ [][Next]_vars

(* C18: accepted exactly if that authority issued exactly this, and the time is right *)
Exactly == seen # <<>> =>
  (seen[4] <=> (/\ seen[3] \in issued
                /\ seen[3].by = seen[1] /\ seen[3].over = seen[2]
                /\ seen[2].from <= now /\ now < seen[2].until))
NeverOutside == seen # <<>> /\ seen[4] => seen[2].from <= now /\ now < seen[2].until
OnceOver == [][ seen # <<>> /\ now >= seen[2].until => ~seen[4] ]_vars

B(b) == <<b.v, b.from, b.until, b.stat>>
Emit == (EmitScripts /\ seen # <<>>) => PrintT("BEH " \o ToJson(<<now, seen[1]>> \o B(seen[2]) \o <<seen[3].by>> \o B(seen[3].over)))
=============================================================================
