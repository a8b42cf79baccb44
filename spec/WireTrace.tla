----------------------------- MODULE WireTrace ------------------------------
(***************************************************************************)
(* Trace validation for the wire format.  Each line of the trace is one    *)
(* recorded execution of the real code; each step of this specification    *)
(* consumes one line and judges it against Wire.tla for the property       *)
(* PROP.  The run never stops at a rejected line: it collects them, so     *)
(* every line is examined.                                                 *)
(***************************************************************************)
EXTENDS Wire, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop  == IOEnv.PROP

VARIABLES l, bad

IsBoolType(t) == t = "bool"   \* no message has a boolean member
ChainCap == 64

RECURSIVE LenFields(_, _)
LenFields(t, v) ==
  LET ty == Types[t] IN
  CASE ty.k \in {"str", "bytes"} -> <<Len(v)>>
    [] ty.k = "msg" -> FlattenSeq([i \in DOMAIN ty.layout |-> LenFields(ty.layout[i][2], v[i])])
    [] ty.k = "sum" -> LenFields(SumBody[v[1]], v[2])
    [] OTHER -> <<>>

Digits8(x) == <<0, 0, 0, 0>> \o Rev(LE(x, 4))   \* x < 2^31

-----------------------------------------------------------------------------
(* C01 *)
EncOK(e) ==
  ConstructErrs(e.t, e.v) = {} =>
    /\ e.r # "panic"
    /\ e.r = "ok" => /\ e.bytes = Encode(e.t, e.v)
                     /\ e.n = Len(e.bytes)
                     /\ e.same

EncBigOK(e) ==
  e.r = "ok" => /\ e.head = LE(e.len, Types[e.t].n)
                /\ e.body
                /\ e.total = Types[e.t].n + e.len
                /\ e.n = e.total
                /\ e.same

(* C02 *)
RtOK(e) == /\ e.r = "ok"
           /\ e.out = e.v
           /\ e.used = -1 \/ e.used = Len(e.bytes)

RtBigOK(e) == e.r = "ok" /\ e.same /\ e.used \in {-1, e.total}

(* C03 *)
DecSound(e) ==
  e.r = "ok" =>
    LET d == Dec(e.t, e.in, 0) IN
    /\ d.errs = {}
    /\ ConstructErrs(e.t, e.out) = {}
    /\ IsBoolType(e.t) \/ (Len(e.re) <= Len(e.in) /\ e.re = SubSeq(e.in, 1, IF e.used = -1 THEN Len(e.re) ELSE e.used))

(* C04 *)
DecTotal(e) == e.r # "panic" /\ (e.r = "ok" => e.used <= Len(e.in))

CutOK(e) ==
  LET d == Dec(e.t, e.full, 0) IN
  (d.errs = {} /\ d.pos = Len(e.full)) =>
    /\ Len(e.res) = Len(e.full)
    /\ \A k \in DOMAIN e.res : e.res[k] = "Parse"

(* C05 / C06: built or decoded exactly when allowed, with the right refusal *)
NewOK(e) ==
  LET ce == ConstructErrs(e.t, e.v) IN
  /\ (e.r = "ok") <=> (ce = {})
  /\ e.r = "ok" => e.out = e.v
  /\ e.r = "err" => e.kind \in ce

LensOK(e) == e.r = "ok" => e.lf = LenFields(e.t, e.out)

DecLimit(e) ==
  LET d == Dec(e.t, e.in, 0) IN
  /\ d.errs = {} => e.r = "ok" /\ e.out = d.v
  /\ (d.cont /\ d.errs # {} /\ d.errs \subseteq {"Requirement", "Version"}) => e.r = "err" /\ e.kind \in d.errs

NewBigOK(e) ==
  LET ty == Types[e.t] IN
  IF e.len <= ty.max THEN e.r = "ok" /\ e.same /\ e.lf = e.len
  ELSE e.r = "err" /\ e.kind = "Requirement"

U24OK(e) ==
  LET fits == SubSeq(e.arg, 1, 5) = <<0, 0, 0, 0, 0>> IN
  /\ (e.r = "ok") <=> fits
  /\ e.r = "ok" => e.out = e.arg /\ e.eq
  /\ e.r = "err" => e.kind = "Requirement"

(* C07 *)
RegOK(e) == e.r = "ok" /\ Registry[e.name] = <<e.ext, e.mt, e.ch>>

SeqSet(s) == { s[i] : i \in DOMAIN s }

RegNewOK(e) ==
  /\ e.odd = <<>>
  /\ SeqSet(e.acc) = { <<Registry[t][1], Registry[t][2], t>> : t \in MessageTypes }
  /\ Len(e.acc) = Cardinality(MessageTypes)

HeadersOK(e) ==
  /\ e.odd = <<>>
  /\ SeqSet(e.acc) = { << Registry[t][1] + (IF Registry[t][3] THEN 32768 ELSE 0), Registry[t][2], t, TRUE >> : t \in MessageTypes }
  /\ SeqSet(e.chan) = { << Registry[t][1] + (IF Registry[t][3] THEN 0 ELSE 32768), Registry[t][2] >> : t \in MessageTypes }
  /\ Len(e.acc) = Cardinality(MessageTypes)

HdrOutOK(e) ==
  LET r == Registry[e.name] IN
  e.r = "ok" /\ e.hdr = LE(r[1] + (IF r[3] THEN 32768 ELSE 0), 2) \o <<r[2]>>

FTypeOK(e) == e.r = "ok" /\ e.mt = FrameType[e.t] /\ e.static = FrameType[e.t]

(* C08 *)
FrameOK(e) ==
  /\ e.mt = FrameType[e.t]
  /\ e.payload = e.own
  /\ e.rw = "ok" /\ e.wire = Encode("Message", <<e.mt, e.payload>>)
  /\ e.rb = "ok" /\ e.back = <<e.mt, e.payload>>
  /\ e.ru = "ok" /\ e.un = e.v

UnframeOK(e) ==
  LET errs == UnframeErrs(e.t, <<e.mt, e.payload>>) IN
  /\ (e.r = "ok") <=> (errs = {})
  /\ e.r = "ok" => e.out = Dec(e.t, e.payload, 0).v
  /\ (e.mt # FrameType[e.t]) => e.kind = "UnexpectedMessageType"

FrameBigOK(e) ==
  LET fits == SubSeq(e.len, 1, 5) = <<0, 0, 0, 0, 0>>
      r    == Registry[e.mt] IN
  IF fits
  THEN /\ e.r = "ok"
       /\ e.head = LE(r[1] + (IF r[3] THEN 32768 ELSE 0), 2) \o <<r[2]>> \o Rev(SubSeq(e.len, 6, 8))
       /\ e.body /\ e.back
       /\ LET n == e.len[8] + 256 * e.len[7] + 65536 * e.len[6] IN
          e.n = Digits8(n + 6) /\ e.seen = Digits8(n + 6)
  ELSE e.r = "err" /\ e.kind = "Requirement"

(* A class of an application's own, framed as type e.t; e.ask is another class. *)
OwnOK(e) ==
  IF e.gave_up THEN e.r = "err" /\ e.rkind = "Unimplemented"
  ELSE /\ e.r = "ok" /\ e.mt = e.t /\ e.payload
       /\ e.own = "ok" /\ e.same /\ e.after
       /\ e.ask # e.t /\ e.other = "err" /\ e.kind = "UnexpectedMessageType"

(* C23 *)
KindOK(e, errs) ==
  e.r = "err" => /\ e.chain <= ChainCap /\ e.shown
                 /\ errs = {} \/ e.kind \in errs

ErrKindOK(e) == e.r = "err" /\ (e.want = "*" \/ e.kind = e.want) /\ e.chain <= ChainCap /\ e.shown

(* C24 *)
CodeFromOK(e) ==
  LET c == CodeOf(Types[e.t].names, e.s) IN
  /\ (e.r = "ok") <=> (c # {})
  /\ e.r = "ok" => e.out \in c
  /\ e.r = "err" => e.kind = "UnknownErrorCode"

CodeToOK(e) == e.r = "ok" /\ e.s = Types[e.t].names[e.name] /\ e.len \in {-1, Len(e.s)}

ProtoOK(e) ==
  LET p == { q \in DOMAIN ProtocolIds : ProtocolIds[q] = e.byte } IN
  /\ (e.r = "ok") <=> (p # {})
  /\ e.r = "ok" => e.out \in p
  /\ e.r # "panic"

ProtoIdOK(e) == e.r = "ok" /\ e.byte = ProtocolIds[e.name]

(* C27 *)
EqOK(e) ==
  LET s == SameValue(e.t, e.a, e.b) IN
  e.r = "ok" /\ e.ab = s /\ e.ba = s /\ e.ne = ~s

CopyOK(e)  == e.r = "ok" /\ e.outs # <<>> /\ \A i \in DOMAIN e.outs : e.outs[i] = e.v
ConvOK(e)  == e.r = "ok" /\ e.outs # <<>> /\ \A i \in DOMAIN e.outs : e.outs[i] = PlainOf(e.t, e.v)
AllAre(e, x) == e.r = "ok" /\ \A i \in DOMAIN e.res : e.res[i] = x
CrossOK(e) == AllAre(e, e.p = PlainOf(e.t, e.v))
EqBigOK(e) == AllAre(e, e.pos = -1)
KeyEqOK(e) == AllAre(e, e.a = e.b)
EmptyOK(e) == AllAre(e, \A i \in DOMAIN e.b : e.b[i] = 0)

(* C29 *)
HeldOK(e) == e.most <= Held(e.len)

-----------------------------------------------------------------------------
Judge(e) ==
  CASE e.op = "enc"    -> (Prop \in {"C01", "C08"}) => EncOK(e)
    [] e.op = "encbig" -> EncBigOK(e)
    [] e.op = "rt"     -> RtOK(e)
    [] e.op = "rtbig"  -> RtBigOK(e)
    [] e.op = "dec"    -> CASE Prop = "C03" -> DecSound(e)
                            [] Prop = "C04" -> DecTotal(e)
                            [] Prop = "C05" -> DecLimit(e) /\ LensOK(e)
                            [] Prop = "C06" -> DecLimit(e)
                            [] Prop = "C23" -> KindOK(e, Dec(e.t, e.in, 0).errs)
                            [] OTHER -> TRUE
    [] e.op = "cut"    -> CutOK(e)
    [] e.op = "new"    -> CASE Prop = "C05" -> NewOK(e) /\ LensOK(e)
                            [] Prop = "C06" -> NewOK(e)
                            [] Prop = "C23" -> KindOK(e, ConstructErrs(e.t, e.v))
                            [] OTHER -> TRUE
    [] e.op = "newbig" -> NewBigOK(e)
    [] e.op = "u24"    -> U24OK(e)
    [] e.op = "u24all" -> e.wrong = 0
    [] e.op = "reg"    -> RegOK(e)
    [] e.op = "regnew" -> RegNewOK(e)
    [] e.op = "headers" -> HeadersOK(e)
    [] e.op = "hdrout" -> HdrOutOK(e)
    [] e.op = "ftype"  -> FTypeOK(e)
    [] e.op = "frame"  -> FrameOK(e)
    [] e.op = "unframe" -> UnframeOK(e)
    [] e.op = "framebig" -> FrameBigOK(e)
    [] e.op = "own"    -> OwnOK(e)
    [] e.op = "errkind" -> ErrKindOK(e)
    [] e.op = "code"   -> CodeFromOK(e)
    [] e.op = "codeto" -> CodeToOK(e)
    [] e.op = "proto"  -> ProtoOK(e)
    [] e.op = "protoid" -> ProtoIdOK(e)
    [] e.op = "eq"     -> EqOK(e)
    [] e.op = "copy"   -> CopyOK(e)
    [] e.op = "conv"   -> ConvOK(e)
    [] e.op = "cross"  -> CrossOK(e)
    [] e.op = "eqbig"  -> EqBigOK(e)
    [] e.op = "chars"  -> AllAre(e, TRUE)
    [] e.op = "mteq"   -> AllAre(e, e.a = e.b)
    [] e.op = "keyeq"  -> KeyEqOK(e)
    [] e.op = "empty"  -> EmptyOK(e)
    [] e.op = "held"   -> HeldOK(e)

Init == l = 1 /\ bad = <<>>

Consume ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ bad' = IF Judge(Trace[l]) THEN bad ELSE IF Len(bad) < 30 THEN Append(bad, l) ELSE bad

Spec == Init /\ [][Consume]_<<l, bad>>

(* Evaluated in every state; reports at the end of the trace. *)
Report == l = Len(Trace) + 1 => PrintT(<<"TRACE-END", Len(Trace), bad>>)
=============================================================================
