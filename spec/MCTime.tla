-------------------------------- MODULE MCTime ------------------------------
(* A clock of nanoseconds (here: Sub per second) and its conversion to seconds that fit Cap. *)
EXTENDS Integers
CONSTANTS Sub, Cap
VARIABLES t, last   \* time in fractions of a second; the last conversion: a number or -1
Conv(x) == IF x < 0 \/ x \div Sub > Cap THEN -1 ELSE x \div Sub
Init == t = -3 * Sub /\ last = Conv(-3 * Sub)
Next == t < (Cap + 3) * Sub /\ t' = t + 1 /\ last' = Conv(t + 1)
Spec == Init /\ [][Next]_<<t, last>>
RoundedDown == last # -1 => last * Sub <= t /\ t < (last + 1) * Sub
Range == last # -1 <=> 0 <= t /\ t < (Cap + 1) * Sub
Monotone == [][ last # -1 /\ last' # -1 => last <= last' ]_<<t, last>>
=============================================================================
