------------------------------- MODULE MCWire -------------------------------
(***************************************************************************)
(* Model checking of the wire format specification itself.  A behaviour    *)
(* takes one value of one type, encodes it, and lets the network cut,      *)
(* extend or alter the encoding before it is decoded.  The invariants are  *)
(* the listed properties, stated on the specification; the trace           *)
(* specifications then bind the code to the same operators.                *)
(***************************************************************************)
EXTENDS Wire, TLC

CONSTANTS Deep      \* BOOLEAN: larger domains

VARIABLES t, v, buf, phase
vars == <<t, v, buf, phase>>

-----------------------------------------------------------------------------
(* Small but boundary-rich domains *)

Rep(x, n) == [i \in 1..n |-> x]

IntDom(n) ==
  { Rep(0, n), Rep(255, n), Rep(0, n - 1) \o <<1>>, Rep(0, n - 1) \o <<2>>, Rep(0, n - 1) \o <<255>>,
    <<1>> \o Rep(0, n - 1), <<128>> \o Rep(0, n - 1), [i \in 1..n |-> i] }

StrDom(max) ==
  { <<>>, <<97>>, <<0>>, <<195, 169>>, Rep(98, max), Rep(98, max - 1) }
  \cup (IF max < 255 THEN { Rep(98, max + 1) } ELSE {})
  \cup (IF Deep THEN { <<226, 130, 172>>, <<240, 159, 152, 128>>, Rep(99, 17) } ELSE {})

BytesDom(n, max) ==
  { <<>>, <<0>>, <<255, 0>>, [i \in 1..31 |-> i] }
  \cup (IF n = 1 THEN { Rep(7, max) } \cup (IF max < 255 THEN { Rep(7, max + 1) } ELSE {})
                 ELSE { Rep(9, 256), Rep(9, 257) })

RawDom(n) == { Rep(0, n), Rep(255, n), [i \in 1..n |-> i] }

Word(bits) == [i \in 1..4 |-> (IF 0 \in bits /\ i = 4 THEN 1 ELSE 0) + (IF 1 \in bits /\ i = 4 THEN 2 ELSE 0)
                              + (IF 2 \in bits /\ i = 4 THEN 4 ELSE 0) + (IF 3 \in bits /\ i = 4 THEN 8 ELSE 0)
                              + (IF 31 \in bits /\ i = 1 THEN 128 ELSE 0)]
FlagDom == { Word({}), Word({0}), Word({1}), Word({2}), Word({0, 1}), Word({0, 1, 2}), Word({3}), Word({31}) }

ScalarDom(x) ==
  LET ty == Types[x] IN
  CASE ty.k = "int"   -> IntDom(ty.n)
    [] ty.k = "raw"   -> RawDom(ty.n)
    [] ty.k = "sig"   -> { Rep(0, 64), Rep(31, 64), Rep(0, 63) \o <<32>>, [i \in 1..64 |-> (i * 5) % 32], Rep(255, 64) }
    [] ty.k = "bool"  -> BOOLEAN
    [] ty.k = "str"   -> StrDom(ty.max)
    [] ty.k = "bytes" -> BytesDom(ty.n, ty.max)
    [] ty.k = "flags" -> FlagDom
    [] ty.k = "code"  -> DOMAIN ty.names
    [] ty.k = "proto" -> DOMAIN ProtocolIds

(* A plain valid value of each scalar type *)
Base(x) ==
  LET ty == Types[x] IN
  CASE ty.k = "int"   -> [i \in 1..ty.n |-> i + 2]
    [] ty.k = "raw"   -> [i \in 1..ty.n |-> i]
    [] ty.k = "sig"   -> [i \in 1..64 |-> i % 32]
    [] ty.k = "str"   -> <<118, 49>>
    [] ty.k = "bytes" -> <<3, 1, 4>>
    [] ty.k = "flags" -> Word({})
    [] ty.k = "code"  -> CHOOSE c \in DOMAIN ty.names : c \notin {"UnsupportedFeatureFlags"}

BaseMsg(x) == [i \in DOMAIN Types[x].layout |->
                 IF x = "SignedCertificate" /\ i = 3 THEN <<200, 0, 0, 0>> ELSE Base(Types[x].layout[i][2])]

(* one field at a time over its domain; pairs for the fields a rule relates *)
MsgDom(x) ==
  LET b == BaseMsg(x)
      L == Types[x].layout
      one == UNION { { [b EXCEPT ![i] = y] : y \in ScalarDom(L[i][2]) } : i \in DOMAIN L }
      rule == Types[x].rule
      two(i, j) == { [b EXCEPT ![i] = y, ![j] = z] : y \in ScalarDom(L[i][2]), z \in ScalarDom(L[j][2]) } IN
  one \cup (CASE rule = "setup" -> two(1, 2) \cup two(6, 8)
              [] rule = "setuperr" -> two(1, 2)
              [] rule = "window" -> two(2, 3)
              [] OTHER -> {})

FrameDom == { <<mt, p>> : mt \in MessageTypes, p \in { <<>>, <<0>>, <<255, 1, 2>>, Rep(5, 256) } }

Dom(x) ==
  LET ty == Types[x] IN
  CASE ty.k = "msg"   -> MsgDom(x)
    [] ty.k = "sum"   -> UNION { { <<p, y>> : y \in MsgDom(SumBody[p]) } : p \in DOMAIN SumBody }
    [] ty.k = "frame" -> FrameDom
    [] OTHER          -> ScalarDom(x)

(* Values that can be written down: their lengths fit the prefix *)
RECURSIVE Fits(_, _)
Fits(x, y) ==
  LET ty == Types[x] IN
  CASE ty.k = "str" -> Len(y) <= 255
    [] ty.k = "bytes" -> ty.n > 1 \/ Len(y) <= 255
    [] ty.k = "msg" -> \A i \in DOMAIN ty.layout : Fits(ty.layout[i][2], y[i])
    [] ty.k = "sum" -> Fits(SumBody[y[1]], y[2])
    [] OTHER -> TRUE

Tails == { <<0>>, <<255>>, <<1, 2, 3>> }
MutBytes(b) == { 0, 1, 2, 128, 255, (b + 1) % 256, (b + 255) % 256 }
              \cup (IF Deep THEN { 16, 31, 32, 33, 64, 127, 192, 194, 224, 237, 240, 244, (b + 128) % 256 } ELSE {})

MutPos == IF Deep THEN {i \in DOMAIN buf : TRUE}
          ELSE {i \in DOMAIN buf : i <= 14 \/ i > Len(buf) - 4}
CutPos == IF Deep THEN 0..(Len(buf) - 1) ELSE {k \in 0..(Len(buf) - 1) : k <= 40 \/ k > Len(buf) - 6}

-----------------------------------------------------------------------------
(* The type is chosen by a step, so that the initial state is unique. *)
Init == t = "" /\ v = <<>> /\ buf = <<>> /\ phase = "start"

Choose == /\ phase = "start"
          /\ \E x \in TypeNames : t' = x
          /\ phase' = "type" /\ UNCHANGED <<v, buf>>

Build == /\ phase = "type"
         /\ \E y \in Dom(t) :
              /\ v' = y
              /\ IF ConstructErrs(t, y) = {} THEN buf' = Encode(t, y) /\ phase' = "enc"
                 ELSE /\ phase' = "refused"
                      /\ buf' = IF Fits(t, y) THEN Encode(t, y) ELSE <<>>
         /\ UNCHANGED t

Cut == /\ phase = "enc"
       /\ \E k \in CutPos : buf' = SubSeq(buf, 1, k)
       /\ phase' = "cut" /\ UNCHANGED <<t, v>>

Extend == /\ phase = "enc"
          /\ \E s \in Tails : buf' = buf \o s
          /\ phase' = "ext" /\ UNCHANGED <<t, v>>

Alter == /\ phase = "enc"
         /\ \E i \in MutPos : \E b \in MutBytes(buf[i]) : buf' = [buf EXCEPT ![i] = b]
         /\ phase' = "mut" /\ UNCHANGED <<t, v>>

Next == Choose \/ Build \/ Cut \/ Extend \/ Alter
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
D == Dec(t, buf, 0)
Alive == phase \in {"enc", "cut", "ext", "mut"}

(* C01: encodings are byte sequences, and distinct values of a type never share one *)
EncodingIsBytes == phase = "enc" => \A i \in DOMAIN buf : buf[i] \in Byte
EncodingInjective == phase = "enc" => \A w \in Dom(t) : (ConstructErrs(t, w) = {} /\ Encode(t, w) = buf) => w = v

(* C02 *)
RoundTrip == phase \in {"enc", "ext"} => D.errs = {} /\ D.v = v /\ D.pos = Len(Encode(t, v))

(* C03 *)
Canonical == (Alive /\ D.errs = {}) =>
               /\ ConstructErrs(t, D.v) = {}
               /\ t = "bool" \/ Encode(t, D.v) = SubSeq(buf, 1, D.pos)

(* C04: totality is TLC evaluating D at all; positions stay inside; cuts are parse errors *)
InBounds == Alive => D.pos \in 0..Len(buf)
CutIsParseError == phase = "cut" => D.errs = {"Parse"}

(* C05, C06, C23: constructing and decoding refuse the same things for the same reasons *)
Agree == phase = "refused" /\ Fits(t, v) => D.errs # {} /\ D.errs = ConstructErrs(t, v)
LimitRefused == phase = "refused" => ConstructErrs(t, v) \subseteq {"Requirement", "Version", "UnknownFlags", "Signature"}

(* C07 *)
RegistryOneToOne == \A a, b \in MessageTypes : Registry[a] = Registry[b] => a = b
HeaderOneToOne == \A a, b \in MessageTypes : (Registry[a][1] = Registry[b][1] /\ Registry[a][2] = Registry[b][2]) => a = b

(* C08 *)
FrameFaithful ==
  (t \in DOMAIN FrameType /\ phase = "enc") =>
     LET m == <<FrameType[t], buf>>
         w == Encode("Message", m)
         d == Dec("Message", w, 0) IN
     /\ d.errs = {} /\ d.v = m /\ d.pos = Len(w)
     /\ UnframeErrs(t, m) = {}
     /\ \A mt \in MessageTypes \ {FrameType[t]} : UnframeErrs(t, <<mt, buf>>) = {"UnexpectedMessageType"}

(* C27: equal values are those with one encoding, but for the zeros and not-a-number *)
Rates(w) == IF t = "f32" THEN {w}
            ELSE IF Types[t].k = "msg" THEN { w[i] : i \in { j \in DOMAIN Types[t].layout : Types[t].layout[j][2] = "f32" } }
            ELSE {}
EqualFollowsEncoding ==
  phase = "enc" =>
    \A w \in Dom(t) :
      (ConstructErrs(t, w) = {}) =>
         /\ SameValue(t, v, w) = SameValue(t, w, v)
         /\ (\A x \in Rates(v) \cup Rates(w) : ~IsNaN(x) /\ ~IsZero(x)) => (SameValue(t, v, w) <=> Encode(t, w) = buf)
         /\ (\E x \in Rates(v) : IsNaN(x)) => ~SameValue(t, v, w)
         /\ (Encode(t, w) = buf /\ \A x \in Rates(v) : ~IsNaN(x)) => SameValue(t, v, w)

(* C29: what is decoded is no more than what was read, however much was claimed *)
NoMoreThanRead == (Alive /\ D.errs = {}) => SizeOf(t, D.v) <= D.pos

(* C24 *)
CodesOneToOne ==
  /\ \A a, b \in DOMAIN SetupErrorCodes : SetupErrorCodes[a] = SetupErrorCodes[b] => a = b
  /\ \A a, b \in DOMAIN OpenChannelErrorCodes : OpenChannelErrorCodes[a] = OpenChannelErrorCodes[b] => a = b
  /\ \A a, b \in DOMAIN ProtocolIds : ProtocolIds[a] = ProtocolIds[b] => a = b
=============================================================================
