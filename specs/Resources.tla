------------------------------ MODULE Resources ------------------------------
(* C23: who owns what the library allocates.  Objects (images, textures,     *)
(* custom mips) are values that own storage; a call may take storage of its  *)
(* own while it runs (pixels of a result, handles of a file, workers), may   *)
(* fail at any point of it, and hands over or gives back all of it when it   *)
(* returns.  Everything that is live between two calls is owned by exactly   *)
(* one object, so that nothing is left when no object is, whatever happened  *)
(* before, and repeating a history costs nothing.                            *)
(* LEAKY is a fault of the implementation: a failing call forgets what it    *)
(* took.  The invariants have to be false then (ResourcesLeak.cfg).          *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Slots, Storage, MaxTemp, MaxCalls, Leaky

VARIABLES live,     \* storage that has been taken and not given back
          owns,     \* slot -> set of storage (an object may own several images)
          temp,     \* storage of the running call
          call,     \* "none" or the running call: [op, dst, src]
          calls     \* number of calls made
vars == <<live, owns, temp, call, calls>>
None == [op |-> "none", dst |-> 0, src |-> 0]

Owned == UNION {owns[s] : s \in Slots}
Free == Storage \ live

Init == live = {} /\ owns = [s \in Slots |-> {}] /\ temp = {} /\ call = None /\ calls = 0

Begin == /\ call = None /\ calls < MaxCalls
         /\ \E op \in {"make", "copy", "move", "replace", "read", "drop"}, d \in Slots, s \in Slots :
              /\ (op \in {"copy", "move"}) \/ s = d
              /\ call' = [op |-> op, dst |-> d, src |-> s]
         /\ calls' = calls + 1 /\ UNCHANGED <<live, owns, temp>>

\* the call takes something: pixels, a handle, a worker
Take == /\ call.op \in {"make", "copy", "replace", "read"} /\ Cardinality(temp) < MaxTemp /\ Free # {}
        /\ LET x == CHOOSE x \in Free : TRUE IN live' = live \cup {x} /\ temp' = temp \cup {x}
        /\ UNCHANGED <<owns, call, calls>>
\* and may give some of it back while it still runs
Return1 == /\ temp # {} /\ LET x == CHOOSE x \in temp : TRUE IN live' = live \ {x} /\ temp' = temp \ {x}
           /\ UNCHANGED <<owns, call, calls>>

\* it fails: its results are not handed over; the object it was about keeps what it had (assigning calls) ...
Fail == /\ call.op \in {"make", "copy", "replace", "read"}
        /\ live' = IF Leaky THEN live ELSE live \ temp
        /\ temp' = {} /\ call' = None /\ UNCHANGED <<owns, calls>>
\* ... or has lost it (calls that begin by clearing it)
FailCleared == /\ call.op \in {"make", "replace"}
               /\ live' = (IF Leaky THEN live ELSE live \ temp) \ owns[call.dst]
               /\ owns' = [owns EXCEPT ![call.dst] = {}]
               /\ temp' = {} /\ call' = None /\ UNCHANGED calls
\* it succeeds: what it made belongs to its object, and what that had before goes
Succeed == /\ call # None
           /\ CASE call.op \in {"make", "copy", "replace"} ->
                     /\ \E kept \in SUBSET temp :
                          /\ owns' = [owns EXCEPT ![call.dst] = kept]
                          /\ live' = (live \ owns[call.dst]) \ (temp \ kept)
                [] call.op = "move" -> IF call.src = call.dst THEN UNCHANGED <<owns, live>>
                                       ELSE /\ owns' = [owns EXCEPT ![call.dst] = owns[call.src], ![call.src] = {}]
                                            /\ live' = live \ owns[call.dst]
                [] call.op = "read" -> owns' = owns /\ live' = live \ temp
                [] OTHER -> owns' = [owns EXCEPT ![call.dst] = {}] /\ live' = live \ owns[call.dst]
           /\ temp' = {} /\ call' = None /\ UNCHANGED calls

Next == Begin \/ Take \/ Return1 \/ Fail \/ FailCleared \/ Succeed
Spec == Init /\ [][Next]_vars

TypeOK == live \subseteq Storage /\ temp \subseteq live /\ call.op \in {"none", "make", "copy", "move", "replace", "read", "drop"}
\* everything live has an owner, and only one
NothingUnowned == live = Owned \cup temp
OneOwner == /\ \A s, t \in Slots : s # t => owns[s] \cap owns[t] = {}
            /\ temp \cap Owned = {}
            /\ Owned \subseteq live
\* between calls
Quiet == call = None => temp = {} /\ live = Owned
NothingLeft == (call = None /\ \A s \in Slots : owns[s] = {}) => live = {}

-----------------------------------------------------------------------------
(* What a ledger shows of it when a history is repeated.  Things the process *)
(* keeps once (tables, stacks of ended threads) settle; what is lost by a    *)
(* history is lost again by each repetition.  q is the quantity behind each  *)
(* repetition.                                                               *)
Grew(q, k) == q[k] > q[k - 1]
Last(q) == {k \in 3..Len(q) : Grew(q, k)}
Settles(q) == ~(q[Len(q)] > q[2] /\ Cardinality(Last(q)) >= Len(q) - 2)
=============================================================================
