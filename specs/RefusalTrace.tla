---------------------------- MODULE RefusalTrace ----------------------------
(* Every call of a history of the real code, and the same call again with    *)
(* each of the things it asks for refused (each time in a process of its     *)
(* own): "ref" is the call with nothing refused, "fault" one refusal, "died" *)
(* the end of the process.                                                   *)
EXTENDS TraceFrame, FiniteSets
RF == INSTANCE Refusal WITH Others <- {}, MaxSteps <- 0, MaxCalls <- 0, Fault <- "none", subject <- "", others <- <<>>,
                            held <- 0, lost <- 0, missing <- 0, call <- "", claim <- "", steps <- 0, calls <- 0

VARIABLE ref
vars == <<frame, ref>>

Ref == IsOp("ref") /\ ref' = E /\ Judge(E.refused = 0, "something was refused")
Refused == /\ IsOp("fault") /\ UNCHANGED ref
           /\ IF ref.line # E.line \/ ref.word # E.word THEN Reject("protocol")
              ELSE IF E.refused = 0 THEN Accept        \* (workers may share what is asked for differently)
              ELSE LET p == RF!Problems(ref, E) IN Judge(p = {}, [call |-> E.word, problems |-> p])
Died == /\ IsOp("died") /\ UNCHANGED ref /\ Reject([call |-> E.word, ended |-> "the process died", status |-> E.status])
ToolRef == IsOp("tool") /\ ref' = E /\ Judge(E.rc = 0 /\ E.kept, "the run fails with nothing refused")
ToolRefused == /\ IsOp("toolfault") /\ UNCHANGED ref
               /\ LET p == RF!ToolProblems(ref, E) IN Judge(p = {}, [run |-> ref.words, problems |-> p, k |-> E.k, on |-> E.on, rc |-> E.rc])
Other == /\ More /\ ~skip /\ E.op \notin {"case", "ref", "fault", "died", "tool", "toolfault"} /\ UNCHANGED ref /\ Reject("unexpected event")

Init == FrameInit /\ ref = [line |-> 0]
Next == \/ NewCase /\ ref' = [line |-> 0]
        \/ SkipStep /\ UNCHANGED ref
        \/ Ref \/ Refused \/ ToolRef \/ ToolRefused \/ Died \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
