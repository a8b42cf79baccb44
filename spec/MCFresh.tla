------------------------------ MODULE MCFresh -------------------------------
(***************************************************************************)
(* Where generated values come from: the system gives every asker a value  *)
(* nobody else got.  A kind is drawn from the system directly, or from the *)
(* generator of the thread, which is seeded from the system when it is     *)
(* first used and again every Reseed values, and forgotten with the        *)
(* thread.  In every interleaving of processes, threads and kinds no value *)
(* appears twice.  A process may also fork: the new process begins with a  *)
(* copy of what the old one remembered, and of its threads only the first  *)
(* goes on.  Kinds drawn from the system do not mind; a generator that     *)
(* remembers anything gives both processes the same values (Buffered # {}  *)
(* together with Forks violates NeverRepeats: the code once did this).     *)
(* The histories are also replayed against the code.                       *)
(***************************************************************************)
EXTENDS Fresh, Json, TLC
CONSTANTS Procs, Threads, Depth, Reseed, Buffered, Forks, EmitScripts

Names == <<"noise", "authority", "responder", "inbound", "opening", "answer", "channels">>

VARIABLES entropy, gen, out, script
vars == <<entropy, gen, out, script>>
None == [seed |-> 0, ctr |-> 0]

Init ==
  /\ entropy = 1
  /\ gen = [p \in Procs, t \in Threads |-> None]
  /\ out = <<>>
  /\ script = <<>>

Draw(p, t, k) ==
  IF Names[k] \notin Buffered
  THEN /\ entropy' = entropy + 1
       /\ out' = Append(out, [kind |-> Names[k], valid |-> TRUE, v |-> <<"system", entropy, 0>>])
       /\ UNCHANGED gen
  ELSE LET g == gen[p, t]
           new == g.seed = 0 \/ g.ctr = Reseed
           h == IF new THEN [seed |-> entropy, ctr |-> 1] ELSE [g EXCEPT !.ctr = @ + 1] IN
       /\ entropy' = IF new THEN entropy + 1 ELSE entropy
       /\ gen' = [gen EXCEPT ![p, t] = h]
       /\ out' = Append(out, [kind |-> Names[k], valid |-> TRUE, v |-> <<"thread", h.seed, h.ctr>>])

\* a process that exists
Named(q) == \E i \in 1..Len(script) : script[i][1] = q \/ (script[i][3] = -1 /\ script[i][2] = q)

Next ==
  /\ Len(script) < Depth
  /\ \/ \E p \in Procs, t \in Threads, k \in 1..Len(Names) :
          \* histories with forks are about one kind each
          /\ Forks => \A i \in 1..Len(script) : script[i][3] \in {k, -1}
          /\ Draw(p, t, k) /\ script' = Append(script, <<p, t, k>>)
     \/ \E p \in Procs, t \in Threads :   \* the thread ends, another takes its name
          /\ ~Forks
          /\ \E i \in 1..Len(script) : script[i][1] = p /\ script[i][2] = t /\ script[i][3] # 0
          /\ \A i \in 1..Len(script) : script[i][1] = p /\ script[i][2] = t /\ script[i][3] = 0 =>
               \E j \in (i+1)..Len(script) : script[j][1] = p /\ script[j][2] = t
          /\ gen' = [gen EXCEPT ![p, t] = None]
          /\ script' = Append(script, <<p, t, 0>>)
          /\ UNCHANGED <<entropy, out>>
     \/ \E p, q \in Procs :               \* p forks; q, which has done nothing yet, is its child
          /\ Forks /\ p # q /\ ~Named(q)
          /\ gen' = [gen EXCEPT ![q, 1] = gen[p, 1]]
          /\ script' = Append(script, <<p, q, -1>>)
          /\ UNCHANGED <<entropy, out>>

Spec == Init /\ [][Next]_vars

RECURSIVE Run(_, _)
Run(used, s) == IF s = <<>> THEN TRUE ELSE Acceptable(used, Head(s)) /\ Run(Record(used, Head(s)), Tail(s))
NeverRepeats == Run(NothingYet, out)
SeedsDiffer == \A a, b \in Procs \X Threads : a # b /\ gen[a] # None => gen[a].seed # gen[b].seed
Emit == EmitScripts /\ Len(script) = Depth => PrintT("BEH " \o ToJson(script))
=============================================================================
