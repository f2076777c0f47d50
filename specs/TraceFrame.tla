----------------------------- MODULE TraceFrame -----------------------------
(* Common part of every trace specification: the recorded trace of the real  *)
(* code is consumed one event per step.  A "case" event starts a new,        *)
(* independent history.  An event whose observation the specification does   *)
(* not allow is reported, and the rest of its case is skipped so that the    *)
(* remaining cases are still checked.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next event of the trace
          ci,     \* the "case" event of the current case
          bad,    \* number of rejected events
          skip    \* the current case was rejected

frame == <<l, ci, bad, skip>>

FrameInit == l = 1 /\ ci = 0 /\ bad = 0 /\ skip = FALSE

More == l <= Len(Trace)
E == Trace[l]
P == Trace[ci].p            \* parameters of the current case
CaseId == Trace[ci].id

IsOp(op) == More /\ ~skip /\ E.op = op

\* a crash, a hang or an exception is never an allowed observation
\* no exception; repetitions of a picture stay repetitions of one
Normal == "exception" \notin DOMAIN E /\ ("off" \in DOMAIN E => E.off = <<>>)

NewCase == /\ More /\ E.op = "case"
           /\ ci' = l /\ l' = l + 1 /\ skip' = FALSE /\ UNCHANGED bad

SkipStep == /\ More /\ skip /\ E.op # "case"
            /\ l' = l + 1 /\ UNCHANGED <<ci, bad, skip>>

Report(info) == PrintT("@@REJECT " \o ToJson([case |-> CaseId, n |-> E.n, op |-> E.op, line |-> l, why |-> info]))

Accept == l' = l + 1 /\ UNCHANGED <<ci, bad, skip>>
Reject(info) == /\ l' = l + 1 /\ bad' = bad + 1 /\ skip' = TRUE /\ UNCHANGED ci
                /\ Report(info)

Judge(ok, info) == IF ok THEN Accept ELSE Reject(info)

\* one state per event
Accepted == /\ PrintT("@@END " \o ToString(TLCGet("stats").diameter - 1))
            /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
