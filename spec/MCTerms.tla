------------------------------- MODULE MCTerms ------------------------------
EXTENDS NoiseTerms
VARIABLE done
Init == done = FALSE
Next == ~done /\ done' = TRUE
Spec == Init /\ [][Next]_done
Agree == BothAgree
AllDistinct == Distinct
Formed == WellFormed(InitiatorView) /\ WellFormed(ResponderView)
Binding == Covers
=============================================================================
