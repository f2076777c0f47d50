-------------------------------- MODULE Pool --------------------------------
(* The workers that convert one surface.  The surface is cut into Jobs units *)
(* of work; the calling thread creates min(Jobs, Threads) workers, each of   *)
(* which takes the next unit from a shared counter until none is left, and   *)
(* joins all of them.  One unit reads the image and writes its own region of *)
(* the surface.                                                              *)
(*                                                                           *)
(* Every thread has a vector clock.  Creating, joining and the operations on *)
(* the counter order the accesses of different threads; two accesses of      *)
(* different threads to one region, one of them a write, must be ordered.    *)
(*                                                                           *)
(* Atomic = FALSE makes the counter an ordinary variable: the model must     *)
(* then break its invariants, which shows that they are not vacuous.         *)
(* Overlap = TRUE lets each unit also write its successor's region.          *)
(* Joining = FALSE forgets to join.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Jobs, Threads, Atomic, Overlap, Joining, Emitting

Workers == IF Jobs < Threads THEN Jobs ELSE Threads
W == 1 .. Workers
T == 0 .. Workers
J == 0 .. Jobs - 1

VARIABLES pc,       \* where each thread is
          made,     \* number of workers that were created
          gone,     \* number of workers that were joined
          next,     \* the counter
          seen,     \* the value of the counter a worker has read
          count,    \* how often each unit was performed
          writes,   \* who wrote each region at what time
          clock,    \* vector clocks of the threads
          sync,     \* vector clock of the counter
          race,     \* two accesses were not ordered
          hist      \* the threads in the order they ran

vars == <<pc, made, gone, next, seen, count, writes, clock, sync, race, hist>>

Zero == [t \in T |-> 0]
Join(a, b) == [t \in T |-> IF a[t] < b[t] THEN b[t] ELSE a[t]]
Tick(c, t) == [c EXCEPT ![t] = @ + 1]

Init == /\ pc = [t \in T |-> IF t = 0 THEN "create" ELSE "no"]
        /\ made = 0 /\ gone = 0 /\ next = 0
        /\ seen = [w \in W |-> 0]
        /\ count = [j \in J |-> 0]
        /\ writes = [j \in J |-> {}]
        /\ clock = [t \in T |-> IF t = 0 THEN Tick(Zero, 0) ELSE Zero]
        /\ sync = Zero
        /\ race = FALSE
        /\ hist = <<>>

Ran(t) == hist' = IF Emitting THEN Append(hist, t) ELSE hist

Create == /\ pc[0] = "create"
          /\ made' = made + 1
          /\ pc' = [pc EXCEPT ![made + 1] = "start", ![0] = IF made + 1 = Workers THEN IF Joining THEN "join" ELSE "done" ELSE "create"]
          /\ clock' = [clock EXCEPT ![made + 1] = Tick(Join(@, clock[0]), made + 1), ![0] = Tick(@, 0)]
          /\ Ran(0)
          /\ UNCHANGED <<gone, next, seen, count, writes, sync, race>>

Start(w) == /\ pc[w] = "start"
            /\ pc' = [pc EXCEPT ![w] = "take"]
            /\ Ran(w)
            /\ UNCHANGED <<made, gone, next, seen, count, writes, clock, sync, race>>

\* the value the worker goes on with
Got(w, v) == pc' = [pc EXCEPT ![w] = IF v >= Jobs THEN "end" ELSE "work"] /\ seen' = [seen EXCEPT ![w] = v]

Take(w) == /\ pc[w] = "take" /\ Atomic
           /\ Got(w, next)
           /\ next' = next + 1
           /\ LET c == Join(clock[w], sync) IN /\ sync' = c
                                               /\ clock' = [clock EXCEPT ![w] = Tick(c, w)]
           /\ Ran(w)
           /\ UNCHANGED <<made, gone, count, writes, race>>

\* the counter as an ordinary variable
Read(w) == /\ pc[w] = "take" /\ ~Atomic
           /\ seen' = [seen EXCEPT ![w] = next]
           /\ pc' = [pc EXCEPT ![w] = "store"]
           /\ Ran(w)
           /\ UNCHANGED <<made, gone, next, count, writes, clock, sync, race>>

Store(w) == /\ pc[w] = "store"
            /\ Got(w, seen[w])
            /\ next' = seen[w] + 1
            /\ Ran(w)
            /\ UNCHANGED <<made, gone, count, writes, clock, sync, race>>

Region(j) == {j} \union (IF Overlap /\ j + 1 < Jobs THEN {j + 1} ELSE {})

\* an access of t that is not ordered after an earlier write
Unordered(t, j) == \E x \in writes[j] : x.t # t /\ x.c > clock[t][x.t]

Work(w) == /\ pc[w] = "work"
           /\ LET j == seen[w] IN
                /\ count' = [count EXCEPT ![j] = @ + 1]
                /\ race' = (race \/ \E r \in Region(j) : Unordered(w, r))
                /\ writes' = [r \in J |-> IF r \in Region(j) THEN writes[r] \union {[t |-> w, c |-> clock[w][w]]} ELSE writes[r]]
           /\ pc' = [pc EXCEPT ![w] = "take"]
           /\ UNCHANGED <<made, gone, next, seen, clock, sync, hist>>

Exit(w) == /\ pc[w] = "end"
           /\ pc' = [pc EXCEPT ![w] = "gone"]
           /\ Ran(w)
           /\ UNCHANGED <<made, gone, next, seen, count, writes, clock, sync, race>>

\* the calling thread waits for its workers in the order it created them
Wait == /\ pc[0] = "join"
        /\ pc[gone + 1] = "gone"
        /\ gone' = gone + 1
        /\ clock' = [clock EXCEPT ![0] = Tick(Join(@, clock[gone + 1]), 0)]
        /\ pc' = [pc EXCEPT ![0] = IF gone + 1 = Workers THEN "done" ELSE "join"]
        /\ Ran(0)
        /\ UNCHANGED <<made, next, seen, count, writes, sync, race>>

\* the caller gets the surface
Return == /\ pc[0] = "done"
          /\ race' = (race \/ \E j \in J : Unordered(0, j))
          /\ pc' = [pc EXCEPT ![0] = "returned"]
          /\ UNCHANGED <<made, gone, next, seen, count, writes, clock, sync, hist>>

Next == Create \/ Wait \/ Return \/ \E w \in W : Start(w) \/ Take(w) \/ Read(w) \/ Store(w) \/ Work(w) \/ Exit(w)

Fair == \A w \in W : WF_vars(Start(w) \/ Take(w) \/ Work(w) \/ Exit(w))
Spec == Init /\ [][Next]_vars /\ WF_vars(Create \/ Wait \/ Return) /\ Fair

\* ------------------------------------------------------------- properties
Returned == pc[0] = "returned"

\* every unit is performed exactly once when the caller gets the surface, and never twice
ExactlyOnce == (\A j \in J : count[j] <= 1) /\ (Returned => \A j \in J : count[j] = 1)

\* no two workers have the same unit
Distinct == \A v, w \in W : (v # w /\ pc[v] = "work" /\ pc[w] = "work") => seen[v] # seen[w]

\* what happens to one region is ordered
RaceFree == ~race

\* no worker is left when the caller gets the surface
NobodyLeft == Returned => \A w \in W : pc[w] = "gone"

Ends == <>Returned

\* the schedules
Emit == (Returned /\ Emitting) => PrintT("@@GEN " \o ToJson(hist))
=============================================================================
