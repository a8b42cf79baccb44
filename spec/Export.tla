------------------------------- MODULE Export -------------------------------
(* Writes the tables of Wire.tla, NoiseTerms.tla and Keys.tla as JSON, for the harness. *)
EXTENDS Wire, Json, IOUtils, TLC
VARIABLE x
NT == INSTANCE NoiseTerms
KT == INSTANCE Keys
ASSUME JsonSerialize(IOEnv.OUT,
  [ types     |-> [t \in TypeNames |->
                    IF Types[t].k = "flags" THEN [k |-> "flags", n |-> 4, bits |-> SetToSeq(Types[t].bits)]
                    ELSE Types[t]],
    registry  |-> Registry,
    frametype |-> FrameType,
    protocols |-> ProtocolIds,
    sumbody   |-> SumBody,
    noise     |-> [ protocol |-> NT!Protocol, initiator |-> NT!InitiatorView, responder |-> NT!ResponderView ],
    small     |-> SetToSeq(KT!Small) ])
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
