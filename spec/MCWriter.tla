----------------------------- MODULE MCWriter -------------------------------
(* A serializer that offers the rest of the encoding until all is taken,     *)
(* against every writer: success is reported only with everything delivered, *)
(* and a writer that keeps accepting gets everything.  The writers' scripts  *)
(* are printed and played to the real code.                                  *)
EXTENDS Writer, Json, TLC
CONSTANTS MaxLen, EmitScripts

VARIABLES enc, got, script, fault, result
vars == <<enc, got, script, fault, result>>

Encs == { Encode("U24", <<0, 0, 7>>), Encode("STR0_32", <<65, 66>>), Encode("Message", <<"TestMessage1", <<5>> >>),
          Encode("OpenStandardMiningChannelError", << <<0, 0, 0, 1>>, "UnknownUser" >>) }

Init == enc \in { e \in Encs : Len(e) <= MaxLen } /\ got = <<>> /\ script = <<>> /\ fault = FALSE /\ result = "none"

Write(k) == /\ result = "none" /\ got # enc /\ k \in 1..(Len(enc) - Len(got))
            /\ got' = SubSeq(enc, 1, Len(got) + k) /\ script' = Append(script, k)
            /\ UNCHANGED <<enc, fault, result>>
Refuse   == /\ result = "none" /\ got # enc /\ fault' = TRUE /\ script' = Append(script, 0) /\ result' = "err" /\ UNCHANGED <<enc, got>>
Break    == /\ result = "none" /\ got # enc /\ fault' = TRUE /\ script' = Append(script, -1) /\ result' = "err" /\ UNCHANGED <<enc, got>>
Interrupt == /\ result = "none" /\ got # enc /\ Len(script) < MaxLen /\ fault' = TRUE /\ script' = Append(script, -2)
             /\ (result' = "err" \/ result' = "none") /\ UNCHANGED <<enc, got>>
Finish   == /\ result = "none" /\ got = enc /\ result' = "ok" /\ UNCHANGED <<enc, got, script, fault>>

Accept == \E k \in 1..MaxLen : Write(k)
Next == Accept \/ Refuse \/ Break \/ Interrupt \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Accept) /\ WF_vars(Finish)

Honest == result # "none" => MayReport(enc, got, fault, result, IF result = "ok" THEN Len(got) ELSE 0)
PrefixOnly == IsPrefixOf(got, enc)
Delivered == <>(fault \/ (result = "ok" /\ got = enc))
Emit == (EmitScripts /\ result # "none") => PrintT("BEH " \o ToJson(script))
=============================================================================
