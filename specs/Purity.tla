-------------------------------- MODULE Purity --------------------------------
(* C24: what a call answers, and the values it leaves, depend on its          *)
(* arguments and the values of the objects it is about, and on nothing else:  *)
(* not on what fresh memory holds, not on what was computed before, not on    *)
(* other objects.  The specification runs two processes through the same      *)
(* calls (a self-composition): they differ in everything a caller does not    *)
(* pass, the ambience - the junk in fresh memory, and what earlier calls left *)
(* in memory the library keeps for itself (scratch) - and have to be          *)
(* indistinguishable by what they answer.                                     *)
(* Fresh: an implementation writes every cell of an object before it can be   *)
(* read.  Scratch: what it keeps between calls is keyed by everything it was  *)
(* computed from.  Either may be dropped to see the invariant fail.           *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Slots, Cells, Values, Kernels, MaxCalls, Fresh, Keyed

VARIABLES obj,      \* run -> slot -> cell -> value; <<>> where there is no object
          scratch,  \* run -> what is kept: [key, kernel] or "nothing"
          junk,     \* run -> what fresh memory holds
          said,     \* run -> what the last call answered
          calls
vars == <<obj, scratch, junk, said, calls>>
Run == {1, 2}
NoObject == <<>>
Nothing == [key |-> 0, kernel |-> 0]

Init == /\ obj = [r \in Run |-> [s \in Slots |-> NoObject]]
        /\ scratch \in [Run -> {Nothing} \cup [key : Kernels, kernel : Kernels]]      \* earlier histories differ
        /\ \A r \in Run : Keyed => scratch[r].key = scratch[r].kernel
        /\ junk \in [Run -> Values] /\ said = [r \in Run |-> 0] /\ calls = 0

\* an object of its own, of which the call writes the cells ws
Make(s, v, ws) ==
    /\ obj' = [r \in Run |-> [obj[r] EXCEPT ![s] = [c \in Cells |-> IF c \in ws THEN v ELSE IF Fresh THEN 0 ELSE junk[r]]]]
    /\ said' = [r \in Run |-> 1] /\ UNCHANGED scratch
Write(s, c, v) ==
    /\ obj' = [r \in Run |-> IF obj[r][s] = NoObject THEN obj[r] ELSE [obj[r] EXCEPT ![s][c] = v]]
    /\ said' = [r \in Run |-> IF obj[r][s] = NoObject THEN 0 ELSE 1] /\ UNCHANGED scratch
Read(s, c) ==
    /\ said' = [r \in Run |-> IF obj[r][s] = NoObject THEN 0 ELSE 2 + obj[r][s][c]]
    /\ UNCHANGED <<obj, scratch>>
Drop(s) == obj' = [r \in Run |-> [obj[r] EXCEPT ![s] = NoObject]] /\ said' = [r \in Run |-> 1] /\ UNCHANGED scratch
\* work that uses something derived from k, e.g. the weights of a filter, kept for the next time
Work(s, t, k) ==
    LET kernel(r) == IF (IF Keyed THEN scratch[r].key = k ELSE scratch[r].key # 0) THEN scratch[r].kernel ELSE k IN
    /\ scratch' = [r \in Run |-> [key |-> k, kernel |-> kernel(r)]]
    /\ obj' = [r \in Run |-> IF obj[r][s] = NoObject THEN obj[r]
                             ELSE [obj[r] EXCEPT ![t] = [c \in Cells |-> (obj[r][s][c] + kernel(r)) % Cardinality(Values)]]]
    /\ said' = [r \in Run |-> IF obj[r][s] = NoObject THEN 0 ELSE 1]

Call == /\ calls < MaxCalls /\ calls' = calls + 1
        /\ junk' \in [Run -> Values]
        /\ \/ \E s \in Slots, v \in Values, ws \in SUBSET Cells : Make(s, v, ws)
           \/ \E s \in Slots, c \in Cells, v \in Values : Write(s, c, v)
           \/ \E s \in Slots, c \in Cells : Read(s, c)
           \/ \E s \in Slots : Drop(s)
           \/ \E s \in Slots, t \in Slots, k \in Kernels : Work(s, t, k)
Spec == Init /\ [][Call]_vars

SameAnswers == said[1] = said[2]
SameValues == obj[1] = obj[2]
=============================================================================
