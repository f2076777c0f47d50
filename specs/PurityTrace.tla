----------------------------- MODULE PurityTrace -----------------------------
(* The same history of calls to the real code in several ambiences: one event *)
(* per run, with the ambience and all answers of the history (hashes of       *)
(* everything the harness observes of a call).  What the calls answered in    *)
(* the first run is what they have to answer in every other.                  *)
EXTENDS TraceFrame, FiniteSets

VARIABLES first,    \* the answers of the first run
          run       \* runs so far
vars == <<frame, first, run>>

Different(a, b) == {k \in 1..Len(a) : k > Len(b) \/ a[k] # b[k]}
Run == /\ IsOp("run") /\ run' = run + 1
       /\ IF run = 0 THEN first' = E.answers /\ Accept
          ELSE /\ UNCHANGED first
               /\ IF E.answers = first THEN Accept
                  ELSE LET d == Different(first, E.answers)
                           k == IF d = {} THEN Len(first) + 1 ELSE CHOOSE k \in d : \A j \in d : k <= j IN
                       Reject([ambience |-> E.ambience, answer |-> k, of |-> Len(first), others |-> Cardinality(d),
                               first |-> IF k <= Len(first) THEN first[k] ELSE "nothing", now |-> IF k <= Len(E.answers) THEN E.answers[k] ELSE "nothing"])
Done == IsOp("done") /\ UNCHANGED <<first, run>> /\ Judge(run >= 2, "protocol")
Other == /\ More /\ ~skip /\ E.op \notin {"case", "run", "done"} /\ UNCHANGED <<first, run>> /\ Reject("unexpected event")

Init == FrameInit /\ first = <<>> /\ run = 0
Next == \/ NewCase /\ first' = <<>> /\ run' = 0
        \/ SkipStep /\ UNCHANGED <<first, run>>
        \/ Run \/ Done \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
