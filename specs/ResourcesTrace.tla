---------------------------- MODULE ResourcesTrace ----------------------------
(* The ledger behind each repetition of a history of the real code: blocks   *)
(* and bytes of memory, open files and threads; and that the surroundings of *)
(* the process (directory, locale, rounding, signals, limits, streams) are   *)
(* as they were.                                                             *)
EXTENDS TraceFrame, FiniteSets
CONSTANT Reps
RS == INSTANCE Resources WITH Slots <- {}, Storage <- {}, MaxTemp <- 0, MaxCalls <- 0, Leaky <- FALSE,
                              live <- {}, owns <- <<>>, temp <- {}, call <- 0, calls <- 0

VARIABLE book       \* what the ledger showed so far in this series
vars == <<frame, book>>

Quantities == {"blocks", "bytes", "fds", "threads"}
Series(b, q) == [k \in 1..Len(b) |-> b[k][q]]
Rep == /\ IsOp("rep")
       /\ LET b == Append(IF E.k = 1 THEN <<>> ELSE book, E) IN
          /\ book' = b
          /\ IF ~E.around THEN Reject("the surroundings of the process changed")
             ELSE IF E.k # Len(b) THEN Reject("protocol")
             ELSE IF E.k < Reps THEN Accept
             ELSE LET grows == {q \in Quantities : ~RS!Settles(Series(b, q))} IN
                  Judge(grows = {}, [keeping |-> E.keep, growing |-> [q \in grows |-> Series(b, q)]])
Other == /\ More /\ ~skip /\ E.op \notin {"case", "rep"} /\ UNCHANGED book /\ Reject("unexpected event")

Init == FrameInit /\ book = <<>>
Next == \/ NewCase /\ book' = <<>>
        \/ SkipStep /\ UNCHANGED book
        \/ Rep \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
