------------------------------ MODULE MCIndep -------------------------------
(***************************************************************************)
(* Objects taking their steps in every order, in threads of their own.     *)
(* Each object runs one of the scripts; two objects may run the same one.  *)
(* An object keeps to itself what it has seen, and answers from that.      *)
(* Leaky is a faulty variant, in which an answer also depends on who       *)
(* stepped last: it violates Functional, which shows the property is not   *)
(* empty.  The interleavings are replayed against the code.                *)
(***************************************************************************)
EXTENDS Indep, Json, TLC
CONSTANTS Objects, Scripts, Steps, Leaky, EmitScripts

VARIABLES runs, seen, last, answers, order
vars == <<runs, seen, last, answers, order>>

Init ==
  /\ runs \in [Objects -> Scripts]
  /\ seen = [o \in Objects |-> <<>>]
  /\ last = 0
  /\ answers = <<>>
  /\ order = <<>>

Step(o) ==
  LET k == Len(seen[o]) + 1
      in == <<runs[o], k>>
      mem == Append(seen[o], in) IN
  /\ k <= Steps
  /\ seen' = [seen EXCEPT ![o] = mem]
  /\ answers' = Append(answers, [key |-> in, res |-> IF Leaky THEN <<mem, last>> ELSE <<mem>>])
  /\ last' = o
  /\ order' = Append(order, o)
  /\ UNCHANGED runs

Next == \E o \in Objects : Step(o)
Spec == Init /\ [][Next]_vars

RECURSIVE Run(_, _)
Run(known, s) == IF s = <<>> THEN TRUE ELSE Acceptable(known, Head(s)) /\ Run(Record(known, Head(s)), Tail(s))
Functional == Run(Nothing, answers)

(* an object that does not step keeps what it has seen *)
OthersKeep == [][\A o \in Objects : seen'[o] # seen[o] => \A q \in Objects \ {o} : seen'[q] = seen[q]]_vars

Emit == EmitScripts /\ Len(order) = Steps * Cardinality(Objects) => PrintT("BEH " \o ToJson(<<[o \in 1..Cardinality(Objects) |-> runs[o]], order>>))
=============================================================================
