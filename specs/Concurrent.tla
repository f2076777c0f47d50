----------------------------- MODULE Concurrent -----------------------------
(* Threads that use objects of their own.  Every thread performs its         *)
(* operations one after the other; an operation makes sure that the library  *)
(* is ready (the first one of all prepares it), reads the thread's value and *)
(* writes the new one.  The library keeps nothing else between operations,   *)
(* so that each thread's value is, at every moment and under every           *)
(* interleaving, what its operations give when nobody else is there, and no  *)
(* two threads access one place without order.                               *)
(*                                                                           *)
(* Guarded = FALSE prepares the library without a lock.                      *)
(* Scratch = TRUE keeps the value that is worked on in a place of the        *)
(* library.  Both must break the invariants.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Threads, Ops, Guarded, Scratch, Emitting

W == 1 .. Threads
Places == {"ready", "scratch"}

VARIABLES pc,       \* begin, prepare, work, done
          val,      \* a thread's value: its operations so far
          ready,    \* 0: no, 1: in progress, 2: yes
          scratch,
          clock,    \* vector clocks
          sync,     \* vector clock of the guard
          wrote,    \* place -> who wrote it at what time
          read,     \* place -> who read it at what time
          race,
          hist      \* threads in the order they ran

vars == <<pc, val, ready, scratch, clock, sync, wrote, read, race, hist>>

Zero == [t \in W |-> 0]
Join(a, b) == [t \in W |-> IF a[t] < b[t] THEN b[t] ELSE a[t]]

Init == /\ pc = [t \in W |-> "begin"]
        /\ val = [t \in W |-> <<>>]
        /\ ready = 0
        /\ scratch = <<>>
        /\ clock = [t \in W |-> [Zero EXCEPT ![t] = 1]]
        /\ sync = Zero
        /\ wrote = [x \in Places |-> Zero]
        /\ read = [x \in Places |-> Zero]
        /\ race = FALSE
        /\ hist = <<>>

Ran(t) == hist' = IF Emitting THEN Append(hist, t) ELSE hist

\* not ordered before what thread t does with clock c
Unordered(who, c, t) == \E u \in W \ {t} : who[u] > c[u]

Ready(t, c) == /\ pc' = [pc EXCEPT ![t] = "work"]
               /\ clock' = [clock EXCEPT ![t] = c]

Begin(t) == /\ pc[t] = "begin" /\ Len(val[t]) < Ops
            /\ IF Guarded
               THEN /\ ready # 1
                    /\ IF ready = 0
                       THEN /\ ready' = 1
                            /\ pc' = [pc EXCEPT ![t] = "prepare"]
                            /\ UNCHANGED clock
                       ELSE /\ Ready(t, Join(clock[t], sync))
                            /\ UNCHANGED ready
                    /\ UNCHANGED <<race, read>>
               ELSE /\ race' = (race \/ Unordered(wrote["ready"], clock[t], t))
                    /\ read' = [read EXCEPT !["ready"][t] = clock[t][t]]
                    /\ pc' = [pc EXCEPT ![t] = IF ready = 2 THEN "work" ELSE "prepare"]
                    /\ UNCHANGED <<ready, clock>>
            /\ Ran(t)
            /\ UNCHANGED <<val, scratch, sync, wrote>>

Prepare(t) == /\ pc[t] = "prepare"
              /\ ready' = 2
              /\ race' = (race \/ Unordered(wrote["ready"], clock[t], t) \/ Unordered(read["ready"], clock[t], t))
              /\ wrote' = [wrote EXCEPT !["ready"][t] = clock[t][t]]
              /\ sync' = IF Guarded THEN Join(sync, clock[t]) ELSE sync
              /\ Ready(t, [clock[t] EXCEPT ![t] = @ + 1])
              /\ Ran(t)
              /\ UNCHANGED <<val, scratch, read>>

\* first half of the operation
Work(t) == /\ pc[t] = "work"
           /\ pc' = [pc EXCEPT ![t] = "finish"]
           /\ IF Scratch
              THEN /\ scratch' = val[t]
                   /\ race' = (race \/ Unordered(wrote["scratch"], clock[t], t) \/ Unordered(read["scratch"], clock[t], t))
                   /\ wrote' = [wrote EXCEPT !["scratch"][t] = clock[t][t]]
              ELSE UNCHANGED <<scratch, race, wrote>>
           /\ Ran(t)
           /\ UNCHANGED <<val, ready, clock, sync, read>>

Finish(t) == /\ pc[t] = "finish"
             /\ LET from == IF Scratch THEN scratch ELSE val[t] IN val' = [val EXCEPT ![t] = Append(from, <<t, Len(val[t]) + 1>>)]
             /\ IF Scratch
                THEN /\ race' = (race \/ Unordered(wrote["scratch"], clock[t], t))
                     /\ read' = [read EXCEPT !["scratch"][t] = clock[t][t]]
                ELSE UNCHANGED <<race, read>>
             /\ pc' = [pc EXCEPT ![t] = "begin"]
             /\ Ran(t)
             /\ UNCHANGED <<ready, scratch, clock, sync, wrote>>

Over == /\ \A t \in W : pc[t] = "begin" /\ Len(val[t]) >= Ops
        /\ UNCHANGED vars

Next == (\E t \in W : Begin(t) \/ Prepare(t) \/ Work(t) \/ Finish(t)) \/ Over

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Alone == \A t \in W : val[t] = [i \in 1 .. Len(val[t]) |-> <<t, i>>]
NoRace == ~race
Ends == <>(\A t \in W : Len(val[t]) >= Ops)

Emit == Emitting /\ (\A t \in W : pc[t] = "begin" /\ Len(val[t]) >= Ops) => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
