------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* A reader over a byte buffer: its whole state is the buffer and a        *)
(* position.  Reads either return the bytes (value) at the position and    *)
(* advance past them, or fail.  A failed read of a byte run or of a fixed  *)
(* size value does not move; a failed read of a composite value may have   *)
(* stepped over some of it, never backwards and never past the end.        *)
(* Lengths and offsets beyond any buffer are written -1.                   *)
(***************************************************************************)
EXTENDS Wire

FixedKinds == {"int", "raw", "sig", "bool", "flags"}

StartPos(buf, start) == IF start = -1 THEN Len(buf) + 1 ELSE start

RawFits(buf, pos, k) == k # -1 /\ pos + k <= Len(buf)

(* Outcome of one read from a position: result, content, and the positions it may leave behind. *)
RawRead(buf, pos, k) ==
  IF RawFits(buf, pos, k) THEN [r |-> {"ok"}, v |-> Take(buf, pos, k), next |-> {pos + k}, errs |-> {}]
  ELSE [r |-> {"err"}, v |-> <<>>, next |-> {pos}, errs |-> {"Parse"}]

ValRead(t, buf, pos) ==
  LET d == Dec(t, buf, pos) IN
  IF d.errs = {} THEN [r |-> {"ok"}, v |-> d.v, next |-> {d.pos}, errs |-> {}]
  ELSE [r |-> {"err"}, v |-> <<>>, errs |-> d.errs,
        next |-> IF pos > Len(buf) \/ (Types[t].k \in FixedKinds /\ d.errs = {"Parse"}) THEN {pos} ELSE pos..Len(buf)]

(* Whether a recorded read (r, kind, v) may have happened at a position. *)
Explains(o, r, kind, v) ==
  /\ r \in o.r
  /\ r = "ok" => v = o.v
  /\ (r = "err" /\ o.errs = {"Parse"}) => kind = "Parse"
=============================================================================
