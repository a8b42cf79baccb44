-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The Stratum V2 wire format, as an explicit specification.               *)
(*                                                                         *)
(* Values.  Unsigned integers (and the bit patterns of f32, flag sets) are *)
(* sequences of base-256 digits, MOST significant first (TLC integers are  *)
(* 32-bit signed); strings are their UTF-8 bytes; byte strings are byte    *)
(* sequences; error codes and sub-protocols are names; a message is the    *)
(* sequence of its field values in layout order; a frame is                *)
(* <<message type name, payload>>.                                         *)
(*                                                                         *)
(* Encode gives the wire bytes; Dec parses at a position and accumulates   *)
(* every applicable reason for rejection; ConstructErrs is the same for    *)
(* building a value from raw arguments.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Byte == 0..255

-----------------------------------------------------------------------------
(* Type table *)

IntT(n)      == [k |-> "int",   n |-> n]
RawT(n)      == [k |-> "raw",   n |-> n]
StrT(max)    == [k |-> "str",   n |-> 1, max |-> max]
BytesT(n, m) == [k |-> "bytes", n |-> n, max |-> m]
FlagsT(bits) == [k |-> "flags", n |-> 4, bits |-> bits]
CodeT(names) == [k |-> "code",  names |-> names]
MsgT(layout, rule) == [k |-> "msg", layout |-> layout, rule |-> rule]

(* Protocol strings of the error codes, as ASCII bytes. *)
A(s) == s  \* documentation marker: ASCII byte sequence

UnsupportedFeatureFlagsStr == A(<<117,110,115,117,112,112,111,114,116,101,100,45,102,101,97,116,117,114,101,45,102,108,97,103,115>>)
UnsupportedProtocolStr     == A(<<117,110,115,117,112,112,111,114,116,101,100,45,112,114,111,116,111,99,111,108>>)
ProtocolVersionMismatchStr == A(<<112,114,111,116,111,99,111,108,45,118,101,114,115,105,111,110,45,109,105,115,109,97,116,99,104>>)
UnknownUserStr             == A(<<117,110,107,110,111,119,110,45,117,115,101,114>>)
MaxTargetOutOfRangeStr     == A(<<109,97,120,45,116,97,114,103,101,116,45,111,117,116,45,111,102,45,114,97,110,103,101>>)

SetupErrorCodes ==
  [ UnsupportedFeatureFlags |-> UnsupportedFeatureFlagsStr,
    UnsupportedProtocol     |-> UnsupportedProtocolStr,
    ProtocolVersionMismatch |-> ProtocolVersionMismatchStr ]

OpenChannelErrorCodes ==
  [ UnknownUser         |-> UnknownUserStr,
    MaxTargetOutOfRange |-> MaxTargetOutOfRangeStr ]

ProtocolIds == [ Mining |-> 0, JobNegotiation |-> 1,
                 TemplateDistribution |-> 2, JobDistribution |-> 3 ]

(* Field layouts *)
SetupConnectionLayout(flags) ==
  << <<"min_version", "u16">>, <<"max_version", "u16">>, <<"flags", flags>>,
     <<"endpoint_host", "STR0_255">>, <<"endpoint_port", "u16">>,
     <<"vendor", "STR0_255">>, <<"hardware_version", "STR0_255">>,
     <<"firmware", "STR0_255">>, <<"device_id", "STR0_255">> >>

SetupErrorLayout(flags)   == << <<"flags", flags>>, <<"error_code", "SetupErrorCode">> >>
SetupSuccessLayout(flags) == << <<"used_version", "u16">>, <<"flags", flags>> >>

OpenStdLayout ==
  << <<"request_id", "u32">>, <<"user_identity", "STR0_255">>,
     <<"nominal_hash_rate", "f32">>, <<"max_target", "U256">> >>
OpenExtLayout == OpenStdLayout \o << <<"min_extranonce_size", "u16">> >>
OpenStdSuccessLayout ==
  << <<"request_id", "u32">>, <<"channel_id", "u32">>, <<"target", "U256">>,
     <<"extranonce_prefix", "B0_32">>, <<"group_channel_id", "u32">> >>
OpenExtSuccessLayout ==
  << <<"request_id", "u32">>, <<"channel_id", "u32">>, <<"target", "U256">>,
     <<"extranonce_size", "u16">>, <<"extranonce_prefix", "B0_32">> >>
OpenErrorLayout  == << <<"request_id", "u32">>, <<"error_code", "OpenChannelErrorCode">> >>
UpdateLayout     == << <<"channel_id", "u32">>, <<"nominal_hash_rate", "f32">>, <<"max_target", "U256">> >>
EndpointLayout   == << <<"channel_id", "u32">> >>
SigNoiseLayout   == << <<"version", "u16">>, <<"valid_from", "u32">>,
                       <<"not_valid_after", "u32">>, <<"signature", "Signature">> >>
CertLayout       == << <<"version", "u16">>, <<"valid_from", "u32">>,
                       <<"not_valid_after", "u32">>, <<"public_key", "PublicKey">> >>

Types ==
  [ bool     |-> [k |-> "bool"],
    u8       |-> IntT(1),
    u16      |-> IntT(2),
    U24      |-> IntT(3),
    u32      |-> IntT(4),
    f32      |-> IntT(4),
    U256     |-> RawT(32),
    Signature |-> [k |-> "sig", n |-> 64],
    PublicKey |-> RawT(32),
    STR0_32  |-> StrT(32),
    STR0_255 |-> StrT(255),
    B0_31    |-> BytesT(1, 31),
    B0_32    |-> BytesT(1, 32),
    B0_255   |-> BytesT(1, 255),
    B0_64K   |-> BytesT(2, 65535),
    B0_16M   |-> BytesT(3, 16777215),
    MiningSetupFlags        |-> FlagsT({0, 1, 2}),
    JnSetupFlags            |-> FlagsT({0}),
    MiningSetupSuccessFlags |-> FlagsT({0, 1}),
    JnSetupSuccessFlags     |-> FlagsT({}),
    SetupErrorCode          |-> CodeT(SetupErrorCodes),
    OpenChannelErrorCode    |-> CodeT(OpenChannelErrorCodes),
    Protocol                |-> [k |-> "proto"],
    MiningSetupConnection        |-> MsgT(SetupConnectionLayout("MiningSetupFlags"), "setup"),
    JnSetupConnection            |-> MsgT(SetupConnectionLayout("JnSetupFlags"), "setup"),
    MiningSetupConnectionError   |-> MsgT(SetupErrorLayout("MiningSetupFlags"), "setuperr"),
    JnSetupConnectionError       |-> MsgT(SetupErrorLayout("JnSetupFlags"), "setuperr"),
    MiningSetupConnectionSuccess |-> MsgT(SetupSuccessLayout("MiningSetupSuccessFlags"), "none"),
    JnSetupConnectionSuccess     |-> MsgT(SetupSuccessLayout("JnSetupSuccessFlags"), "none"),
    ChannelEndpointChanged            |-> MsgT(EndpointLayout, "none"),
    OpenStandardMiningChannel         |-> MsgT(OpenStdLayout, "none"),
    OpenStandardMiningChannelSuccess  |-> MsgT(OpenStdSuccessLayout, "none"),
    OpenStandardMiningChannelError    |-> MsgT(OpenErrorLayout, "none"),
    OpenExtendedMiningChannel         |-> MsgT(OpenExtLayout, "none"),
    OpenExtendedMiningChannelSuccess  |-> MsgT(OpenExtSuccessLayout, "none"),
    OpenExtendedMiningChannelError    |-> MsgT(OpenErrorLayout, "none"),
    UpdateChannel                     |-> MsgT(UpdateLayout, "none"),
    SignatureNoiseMessage             |-> MsgT(SigNoiseLayout, "none"),
    SignedCertificate                 |-> MsgT(CertLayout, "window"),
    CertificateFormat                 |-> MsgT(CertLayout, "none"),
    SetupConnection |-> [k |-> "sum"],
    Message         |-> [k |-> "frame"] ]

TypeNames == DOMAIN Types

(* Body type of the sub-protocol dependent connection setup message *)
SumBody == [ Mining |-> "MiningSetupConnection", JobNegotiation |-> "JnSetupConnection" ]

(* Message type registry: extension, type byte, channel bit *)
Registry ==
  [ SetupConnection                  |-> <<0, 0,  FALSE>>,
    SetupConnectionSuccess           |-> <<0, 1,  FALSE>>,
    SetupConnectionError             |-> <<0, 2,  FALSE>>,
    ChannelEndpointChanged           |-> <<0, 3,  TRUE>>,
    OpenStandardMiningChannel        |-> <<0, 16, FALSE>>,
    OpenStandardMiningChannelSuccess |-> <<0, 17, FALSE>>,
    OpenStandardMiningChannelError   |-> <<0, 18, FALSE>>,
    OpenExtendedMiningChannel        |-> <<0, 19, FALSE>>,
    OpenExtendedMiningChannelSuccess |-> <<0, 20, FALSE>>,
    OpenExtendedMiningChannelError   |-> <<0, 21, FALSE>>,
    UpdateChannel                    |-> <<0, 22, TRUE>>,
    UpdateChannelError               |-> <<0, 23, TRUE>>,
    CloseChannel                     |-> <<0, 24, TRUE>>,
    SetExtranoncePrefix              |-> <<0, 25, TRUE>>,
    SubmitSharesStandard             |-> <<0, 26, TRUE>>,
    SubmitSharesExtended             |-> <<0, 27, TRUE>>,
    SubmitSharesSuccess              |-> <<0, 28, TRUE>>,
    SubmitSharesError                |-> <<0, 29, TRUE>>,
    NewMiningJob                     |-> <<0, 30, TRUE>>,
    NewExtendedMiningJob             |-> <<0, 31, TRUE>>,
    SetNewPrevHash                   |-> <<0, 32, TRUE>>,
    SetTarget                        |-> <<0, 33, TRUE>>,
    SetCustomMiningJob               |-> <<0, 34, FALSE>>,
    SetCustomMiningJobSuccess        |-> <<0, 35, FALSE>>,
    SetCustomMiningJobError          |-> <<0, 36, FALSE>>,
    Reconnect                        |-> <<0, 37, FALSE>>,
    SetGroupChannel                  |-> <<0, 38, FALSE>>,
    TestMessage1                     |-> <<0, 254, FALSE>>,
    TestMessage2                     |-> <<0, 255, TRUE>> ]

MessageTypes == DOMAIN Registry
TypesOfHeader(ext, mt) == { t \in MessageTypes : Registry[t][1] = ext /\ Registry[t][2] = mt }

(* The frame type each message class travels under *)
FrameType ==
  [ MiningSetupConnection        |-> "SetupConnection",
    JnSetupConnection            |-> "SetupConnection",
    SetupConnection              |-> "SetupConnection",
    MiningSetupConnectionError   |-> "SetupConnectionError",
    JnSetupConnectionError       |-> "SetupConnectionError",
    MiningSetupConnectionSuccess |-> "SetupConnectionSuccess",
    JnSetupConnectionSuccess     |-> "SetupConnectionSuccess",
    ChannelEndpointChanged            |-> "ChannelEndpointChanged",
    OpenStandardMiningChannel         |-> "OpenStandardMiningChannel",
    OpenStandardMiningChannelSuccess  |-> "OpenStandardMiningChannelSuccess",
    OpenStandardMiningChannelError    |-> "OpenStandardMiningChannelError",
    OpenExtendedMiningChannel         |-> "OpenExtendedMiningChannel",
    OpenExtendedMiningChannelSuccess  |-> "OpenExtendedMiningChannelSuccess",
    OpenExtendedMiningChannelError    |-> "OpenExtendedMiningChannelError",
    UpdateChannel                     |-> "UpdateChannel" ]

-----------------------------------------------------------------------------
(* Numbers *)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* Little-endian bytes of a small (< 2^31) natural number, n bytes *)
LE(x, n) == [i \in 1..n |-> (x \div (CASE i = 1 -> 1 [] i = 2 -> 256 [] i = 3 -> 65536 [] i = 4 -> 16777216)) % 256]
FromLE(b) == CASE Len(b) = 1 -> b[1]
               [] Len(b) = 2 -> b[1] + 256 * b[2]
               [] Len(b) = 3 -> b[1] + 256 * b[2] + 65536 * b[3]

(* Comparison of equally long digit sequences *)
RECURSIVE DigLt(_, _)
DigLt(a, b) == IF a = <<>> THEN FALSE
               ELSE IF a[1] # b[1] THEN a[1] < b[1]
               ELSE DigLt(Tail(a), Tail(b))

BitOf(byte, i) == (byte \div (CASE i = 0 -> 1 [] i = 1 -> 2 [] i = 2 -> 4 [] i = 3 -> 8
                                [] i = 4 -> 16 [] i = 5 -> 32 [] i = 6 -> 64 [] i = 7 -> 128)) % 2

(* Positions of the set bits of a 4-digit (most significant first) word *)
SetBits(d) == { p \in 0..31 : BitOf(d[4 - (p \div 8)], p % 8) = 1 }

-----------------------------------------------------------------------------
(* UTF-8 well-formedness (Unicode table 3-7) *)

Cont(s, i) == i <= Len(s) /\ s[i] \in 128..191
In(s, i, lo, hi) == i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi

RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET b == s[i] IN
    CASE b <= 127 -> Utf8From(s, i + 1)
      [] b \in 194..223 -> Cont(s, i+1) /\ Utf8From(s, i + 2)
      [] b = 224 -> In(s, i+1, 160, 191) /\ Cont(s, i+2) /\ Utf8From(s, i + 3)
      [] b = 237 -> In(s, i+1, 128, 159) /\ Cont(s, i+2) /\ Utf8From(s, i + 3)
      [] b \in 225..239 \ {237} -> Cont(s, i+1) /\ Cont(s, i+2) /\ Utf8From(s, i + 3)
      [] b = 240 -> In(s, i+1, 144, 191) /\ Cont(s, i+2) /\ Cont(s, i+3) /\ Utf8From(s, i + 4)
      [] b \in 241..243 -> Cont(s, i+1) /\ Cont(s, i+2) /\ Cont(s, i+3) /\ Utf8From(s, i + 4)
      [] b = 244 -> In(s, i+1, 128, 143) /\ Cont(s, i+2) /\ Cont(s, i+3) /\ Utf8From(s, i + 4)
      [] OTHER -> FALSE

Utf8Valid(s) == (\A i \in DOMAIN s : s[i] < 128) \/ Utf8From(s, 1)

-----------------------------------------------------------------------------
(* Message rules, over the sequence of field values *)

SetupRule(v) ==
  (IF DigLt(v[1], <<0, 2>>) \/ DigLt(v[2], <<0, 2>>) THEN {"Version"} ELSE {})
  \cup (IF v[6] = <<>> \/ v[8] = <<>> THEN {"Requirement"} ELSE {})

SetupErrRule(v) ==
  IF v[1] = <<0,0,0,0>> /\ v[2] = "UnsupportedFeatureFlags" THEN {"Requirement"} ELSE {}

WindowRule(v) == IF DigLt(v[2], v[3]) THEN {} ELSE {"Requirement"}

RuleErrs(rule, v) ==
  CASE rule = "none" -> {}
    [] rule = "setup" -> SetupRule(v)
    [] rule = "setuperr" -> SetupErrRule(v)
    [] rule = "window" -> WindowRule(v)

-----------------------------------------------------------------------------
(* Which errors apply when building a value from raw arguments *)

RECURSIVE ConstructErrs(_, _)
ConstructErrs(t, v) ==
  LET ty == Types[t] IN
  CASE ty.k = "str"   -> IF Len(v) > ty.max THEN {"Requirement"} ELSE {}
    [] ty.k = "bytes" -> IF Len(v) > ty.max THEN {"Requirement"} ELSE {}
    [] ty.k = "flags" -> IF SetBits(v) \subseteq ty.bits THEN {} ELSE {"UnknownFlags"}
    [] ty.k = "sig"   -> IF v[64] >= 32 THEN {"Signature"} ELSE {}
    [] ty.k = "msg"   -> UNION { ConstructErrs(ty.layout[i][2], v[i]) : i \in DOMAIN ty.layout }
                         \cup RuleErrs(ty.rule, v)
    [] ty.k = "sum"   -> ConstructErrs(SumBody[v[1]], v[2])
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* Encoding of valid values *)

RECURSIVE Encode(_, _)
Encode(t, v) ==
  LET ty == Types[t] IN
  CASE ty.k = "int"   -> Rev(v)
    [] ty.k = "flags" -> Rev(v)
    [] ty.k \in {"raw", "sig"} -> v
    [] ty.k = "bool"  -> IF v THEN <<1>> ELSE <<0>>
    [] ty.k = "str"   -> <<Len(v)>> \o v
    [] ty.k = "bytes" -> LE(Len(v), ty.n) \o v
    [] ty.k = "code"  -> <<Len(ty.names[v])>> \o ty.names[v]
    [] ty.k = "proto" -> <<ProtocolIds[v]>>
    [] ty.k = "msg"   -> FlattenSeq([i \in DOMAIN ty.layout |-> Encode(ty.layout[i][2], v[i])])
    [] ty.k = "sum"   -> <<ProtocolIds[v[1]]>> \o Encode(SumBody[v[1]], v[2])
    [] ty.k = "frame" -> LET r == Registry[v[1]] IN
                         LE(r[1] + (IF r[3] THEN 32768 ELSE 0), 2) \o <<r[2]>>
                         \o LE(Len(v[2]), 3) \o v[2]

-----------------------------------------------------------------------------
(* Decoding at position pos (number of bytes already consumed).            *)
(* Result: errs - all applicable reasons for rejection ({} = accepted);    *)
(*         v    - the value; pos - position after it;                      *)
(*         cont - whether the structure could be followed to its end.      *)

Fail(e, pos) == [errs |-> e, v |-> <<>>, pos |-> pos, cont |-> FALSE]
Got(e, v, pos) == [errs |-> e, v |-> v, pos |-> pos, cont |-> TRUE]

Has(buf, pos, n) == pos + n <= Len(buf)
Take(buf, pos, n) == SubSeq(buf, pos + 1, pos + n)

CodeOf(names, s) == { c \in DOMAIN names : names[c] = s }

DecScalar(t, buf, pos) ==
  LET ty == Types[t] IN
  CASE ty.k = "int" ->
         IF Has(buf, pos, ty.n) THEN Got({}, Rev(Take(buf, pos, ty.n)), pos + ty.n)
         ELSE Fail({"Parse"}, pos)
    [] ty.k = "flags" ->
         IF Has(buf, pos, 4)
         THEN LET d == Rev(Take(buf, pos, 4)) IN
              Got(IF SetBits(d) \subseteq ty.bits THEN {} ELSE {"UnknownFlags"}, d, pos + 4)
         ELSE Fail({"Parse"}, pos)
    [] ty.k = "raw" ->
         IF Has(buf, pos, ty.n) THEN Got({}, Take(buf, pos, ty.n), pos + ty.n)
         ELSE Fail({"Parse"}, pos)
    [] ty.k = "sig" ->
         IF Has(buf, pos, 64)
         THEN Got(IF buf[pos + 64] >= 32 THEN {"Signature"} ELSE {}, Take(buf, pos, 64), pos + 64)
         ELSE Fail({"Parse"}, pos)
    [] ty.k = "bool" ->
         IF Has(buf, pos, 1) THEN Got({}, buf[pos + 1] % 2 = 1, pos + 1) ELSE Fail({"Parse"}, pos)
    [] ty.k = "str" ->
         IF ~Has(buf, pos, 1) THEN Fail({"Parse"}, pos)
         ELSE LET n == buf[pos + 1] IN
              IF ~Has(buf, pos + 1, n)
              THEN Fail({"Parse"} \cup (IF n > ty.max THEN {"Requirement"} ELSE {}), pos)
              ELSE LET s == Take(buf, pos + 1, n) IN
                   Got((IF n > ty.max THEN {"Requirement"} ELSE {})
                       \cup (IF Utf8Valid(s) THEN {} ELSE {"Utf8"}), s, pos + 1 + n)
    [] ty.k = "bytes" ->
         IF ~Has(buf, pos, ty.n) THEN Fail({"Parse"}, pos)
         ELSE LET n == FromLE(Take(buf, pos, ty.n)) IN
              IF ~Has(buf, pos + ty.n, n)
              THEN Fail({"Parse"} \cup (IF n > ty.max THEN {"Requirement"} ELSE {}), pos)
              ELSE Got(IF n > ty.max THEN {"Requirement"} ELSE {},
                       Take(buf, pos + ty.n, n), pos + ty.n + n)
    [] ty.k = "code" ->
         IF ~Has(buf, pos, 1) THEN Fail({"Parse"}, pos)
         ELSE LET n == buf[pos + 1] IN
              IF ~Has(buf, pos + 1, n) THEN Fail({"Parse"}, pos)
              ELSE LET s == Take(buf, pos + 1, n)
                       c == CodeOf(ty.names, s) IN
                   IF c = {} THEN Got({IF Utf8Valid(s) THEN "UnknownErrorCode" ELSE "Utf8"},
                                      "?", pos + 1 + n)
                   ELSE Got({}, CHOOSE x \in c : TRUE, pos + 1 + n)
    [] ty.k = "proto" ->
         IF ~Has(buf, pos, 1) THEN Fail({"Parse"}, pos)
         ELSE LET p == { q \in DOMAIN ProtocolIds : ProtocolIds[q] = buf[pos + 1] } IN
              IF p = {} THEN Fail({"Deserialization"}, pos)
              ELSE Got({}, CHOOSE x \in p : TRUE, pos + 1)

RECURSIVE DecFields(_, _, _, _)
DecFields(layout, i, buf, acc) ==
  IF i > Len(layout) \/ ~acc.cont THEN acc
  ELSE LET r == DecScalar(layout[i][2], buf, acc.pos) IN
       DecFields(layout, i + 1, buf,
         [errs |-> acc.errs \cup r.errs,
          v    |-> IF r.cont THEN Append(acc.v, r.v) ELSE acc.v,
          pos  |-> IF r.cont THEN r.pos ELSE acc.pos,
          cont |-> r.cont])

(* Rules that can already be judged on the fields read before a truncation *)
PartialSetupErrs(v) ==
  (IF \E i \in {1, 2} : i <= Len(v) /\ DigLt(v[i], <<0, 2>>) THEN {"Version"} ELSE {})
  \cup (IF \E i \in {6, 8} : i <= Len(v) /\ v[i] = <<>> THEN {"Requirement"} ELSE {})

DecMsg(t, buf, pos) ==
  LET ty == Types[t]
      r  == DecFields(ty.layout, 1, buf, Got({}, <<>>, pos)) IN
  IF r.cont THEN [r EXCEPT !.errs = @ \cup RuleErrs(ty.rule, r.v)]
  ELSE [r EXCEPT !.errs = @ \cup (IF ty.rule = "setup" THEN PartialSetupErrs(r.v) ELSE {})]

DecFrame(buf, pos) ==
  IF ~Has(buf, pos, 3) THEN Fail({"Parse"}, pos)
  ELSE
  LET raw == FromLE(Take(buf, pos, 2))
      ch  == raw >= 32768
      ext == raw % 32768
      ts  == TypesOfHeader(ext, buf[pos + 3])
      hdr == IF ts = {} THEN {"UnknownMessageType"}
             ELSE IF Registry[CHOOSE x \in ts : TRUE][3] # ch THEN {"UnexpectedChannelBit"}
             ELSE {} IN
  IF ~Has(buf, pos, 6) THEN Fail(hdr \cup {"Parse"}, pos)
  ELSE LET n == FromLE(Take(buf, pos + 3, 3)) IN
       IF ~Has(buf, pos + 6, n) THEN Fail(hdr \cup {"Parse"}, pos)
       ELSE IF hdr # {} THEN [Fail(hdr, pos) EXCEPT !.pos = pos + 6 + n]
       ELSE Got({}, << CHOOSE x \in ts : TRUE, Take(buf, pos + 6, n) >>, pos + 6 + n)

Dec(t, buf, pos) ==
  LET ty == Types[t] IN
  CASE ty.k = "msg" -> DecMsg(t, buf, pos)
    [] ty.k = "frame" -> DecFrame(buf, pos)
    [] ty.k = "sum" ->
         LET p == DecScalar("Protocol", buf, pos) IN
         IF ~p.cont THEN p
         ELSE IF p.v \notin DOMAIN SumBody THEN Fail({"Unimplemented"}, pos)
         ELSE LET r == DecMsg(SumBody[p.v], buf, p.pos) IN
              [r EXCEPT !.v = <<p.v, r.v>>]
    [] OTHER -> DecScalar(t, buf, pos)

Accepts(t, buf) == Dec(t, buf, 0).errs = {}

(* Unframing frame m as message class t *)
UnframeErrs(t, m) ==
  IF m[1] # FrameType[t] THEN {"UnexpectedMessageType"} ELSE Dec(t, m[2], 0).errs

-----------------------------------------------------------------------------
(* When two values are equal: when their contents are.  Hash rates are      *)
(* compared as the numbers they denote: not-a-number equals nothing, and    *)
(* the two zeros are equal.                                                 *)
IsNaN(d)  == d[1] % 128 = 127 /\ d[2] >= 128 /\ ~(d[2] = 128 /\ d[3] = 0 /\ d[4] = 0)
IsZero(d) == d[1] % 128 = 0 /\ d[2] = 0 /\ d[3] = 0 /\ d[4] = 0
SameRate(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ (a = b \/ (IsZero(a) /\ IsZero(b)))

SameValue(t, a, b) ==
  LET ty == Types[t] IN
  IF t = "f32" THEN SameRate(a, b)
  ELSE IF ty.k = "msg"
       THEN \A i \in DOMAIN ty.layout : IF ty.layout[i][2] = "f32" THEN SameRate(a[i], b[i]) ELSE a[i] = b[i]
       ELSE a = b

(* The plain value a limited or fixed-size value holds; 24-bit integers are held in 32 bits. *)
PlainOf(t, v) == IF t = "U24" THEN <<0>> \o v ELSE v

-----------------------------------------------------------------------------
(* How much a value holds, in bytes of content; and how much memory any     *)
(* operation on n bytes may hold at once: a small multiple of n, whatever   *)
(* lengths those bytes claim.                                               *)
RECURSIVE SizeOf(_, _)
SizeOf(t, v) ==
  LET ty == Types[t] IN
  CASE ty.k = "msg" -> FoldLeft(LAMBDA a, i : a + SizeOf(ty.layout[i][2], v[i]), 0, [i \in DOMAIN ty.layout |-> i])
    [] ty.k = "sum" -> SizeOf(SumBody[v[1]], v[2])
    [] ty.k = "frame" -> Len(v[2])
    [] ty.k \in {"code", "proto", "bool"} -> 1
    [] OTHER -> Len(v)
Held(n) == 8 * n + 16384
=============================================================================
