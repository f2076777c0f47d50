------------------------------- MODULE Refusal -------------------------------
(* C25: what a call may do when its surroundings refuse it something.  A     *)
(* call asks for things while it runs (memory for pixels and for lists,      *)
(* decoders, threads); each of these may be refused.  It may then do without *)
(* (another way to the same result), or give up: say so by its result or by  *)
(* an exception, or hand out an object that says it holds nothing.  It gives *)
(* back whatever it took, keeps away from objects it is not about, and never *)
(* claims to have done what it has not.                                      *)
(* Fault is a fault of the implementation; each one has to break an          *)
(* invariant (RefusalIgnores, -Loses, -Reaches, -Hides .cfg).                *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Others, MaxSteps, MaxCalls, Fault

VARIABLES subject,  \* the object the call is about: "old", "part", "new" or "invalid"
          others,   \* the other objects: "old" or "changed"
          held,     \* what the running call has taken
          lost,     \* what nobody gives back any more
          missing,  \* parts of the result that could not be made
          call,     \* "none", or how it reports: "result" (true or false) or "object"
          claim,    \* of the last call: "none", "success", "failure", "threw", "object"
          steps, calls
vars == <<subject, others, held, lost, missing, call, claim, steps, calls>>

Init == /\ subject = "old" /\ others = [o \in Others |-> "old"] /\ held = 0 /\ lost = 0 /\ missing = 0
        /\ call = "none" /\ claim = "none" /\ steps = 0 /\ calls = 0

Begin == /\ call = "none" /\ calls < MaxCalls
         /\ call' \in {"result", "object"} /\ claim' = "none" /\ steps' = 0 /\ missing' = 0 /\ calls' = calls + 1
         \* the call may begin by clearing its object, and works on what is there otherwise
         /\ \/ subject' = "part"
            \/ subject' = IF subject = "new" THEN "old" ELSE subject
         /\ UNCHANGED <<others, held, lost>>

Granted == /\ call # "none" /\ steps < MaxSteps
           /\ held' = held + 1 /\ steps' = steps + 1
           /\ UNCHANGED <<subject, others, lost, missing, call, claim, calls>>
\* refused, and done another way
Without == /\ call # "none" /\ steps < MaxSteps
           /\ steps' = steps + 1
           /\ UNCHANGED <<subject, others, held, lost, missing, call, claim, calls>>
\* refused, and given up
GiveUp == /\ call # "none" /\ steps < MaxSteps
          /\ \E how \in {"threw", IF call = "result" THEN "failure" ELSE "object"} :
               /\ claim' = how
               /\ subject' \in (IF subject = "part" THEN (IF Fault = "hides" THEN {"part"} ELSE {"invalid"}) ELSE {subject})
          /\ lost' = IF Fault = "loses" THEN lost + held ELSE lost
          /\ held' = 0 /\ missing' = 0 /\ call' = "none"
          /\ others' \in (IF Fault = "reaches" THEN [Others -> {"old", "changed"}] ELSE {others})
          /\ UNCHANGED <<steps, calls>>
\* refused, and not looked at
Ignore == /\ Fault = "ignores" /\ call # "none" /\ steps < MaxSteps
          /\ steps' = steps + 1 /\ missing' = missing + 1
          /\ UNCHANGED <<subject, others, held, lost, call, claim, calls>>
Succeed == /\ call # "none"
           /\ subject' = IF missing = 0 THEN "new" ELSE "part"
           /\ claim' = IF call = "result" THEN "success" ELSE "object"
           /\ held' = 0 /\ call' = "none"
           /\ UNCHANGED <<others, lost, missing, steps, calls>>

Next == Begin \/ Granted \/ Without \/ GiveUp \/ Ignore \/ Succeed
Spec == Init /\ [][Next]_vars

TypeOK == /\ subject \in {"old", "part", "new", "invalid"} /\ held \in 0..MaxSteps
          /\ claim \in {"none", "success", "failure", "threw", "object"}
Honest == claim = "success" => subject = "new"
Telling == claim = "object" => subject # "part"
Usable == call = "none" => subject # "part"
Alone == \A o \in Others : others[o] = "old"
NothingLost == lost = 0 /\ (call = "none" => held = 0)

-----------------------------------------------------------------------------
(* The same of one call of the real code.  r is the call with nothing        *)
(* refused, m with one thing (or everything from it on) refused; both list   *)
(* the objects behind it as <<slot, state, contents, whole, images held>> (state and      *)
(* contents are digests), r those before it as well; far is the largest       *)
(* difference of any value from that behind r.                         *)
Slots(o) == {o[k][1] : k \in DOMAIN o}
Of(o, s) == o[CHOOSE k \in DOMAIN o : o[k][1] = s]
In(o, s) == s \in Slots(o)
Same(o, p, s) == IF In(o, s) THEN In(p, s) /\ Of(o, s) = Of(p, s) ELSE ~In(p, s)
SameState(o, p, s) == IF In(o, s) THEN In(p, s) /\ Of(o, s)[2] = Of(p, s)[2] ELSE ~In(p, s)
All(r, m) == Slots(r.before) \cup Slots(r.objs) \cup Slots(m.objs)
\* the objects the call is about
About(r, m) == {r.first} \cup {s \in All(r, m) : ~Same(r.before, r.objs, s)}

AloneOf(r, m) == \A s \in All(r, m) \ About(r, m) : Same(m.objs, r.before, s)
NothingLostOf(r, m) == m.left <= r.left
\* done another way the values may be rounded differently (far: thousandths); a texture is converted from what it holds
Near(m) == IF m.word = "tconv" THEN 0 ELSE 150
HonestOf(r, m) == m.claims = "success" => /\ r.claims = "success" /\ m.ans = r.ans
                                          /\ \A s \in All(r, m) : SameState(m.objs, r.objs, s)
                                          /\ m.far \in 0..Near(m)
Handed(r, m, s) == \/ SameState(m.objs, r.objs, s) \/ SameState(m.objs, r.before, s)
                   \/ (In(m.objs, s) /\ ~Of(m.objs, s)[4])
                   \/ (In(m.objs, s) /\ In(r.objs, s) /\ Of(m.objs, s)[5] < Of(r.objs, s)[5])      \* images one can see to be missing
Values(r, m) == \/ m.far <= Near(m)
                \/ \E s \in About(r, m) : ~SameState(m.objs, r.objs, s) \/ Same(m.objs, r.before, s)
TellingOf(r, m) == m.claims = "none" => Values(r, m) /\ \A s \in About(r, m) : Handed(r, m, s)
\* a call that left everything as it was can be made again
AgainOf(r, m) == (\A s \in All(r, m) : Same(m.objs, r.before, s)) => m.again = r.sum
Problems(r, m) == {x \in {"cannot be made again", "changed another object", "lost what it had taken", "claimed a success it was not", "hid that its object is not whole"} :
    CASE x = "changed another object" -> ~AloneOf(r, m)
      [] x = "lost what it had taken" -> ~NothingLostOf(r, m)
      [] x = "claimed a success it was not" -> ~HonestOf(r, m)
      [] x = "cannot be made again" -> ~AgainOf(r, m)
      [] OTHER -> ~TellingOf(r, m)}

\* The same of a run of the tool: rc is its exit code (negative: signal), out the files it left (name, digest), kept
\* that the files it was given are as they were.  It may end at once when it is out of memory (SIGABRT), but not otherwise.
ToolProblems(r, m) == {x \in {"claimed a success it was not", "changed a file it was given", "died"} :
    CASE x = "claimed a success it was not" -> m.rc = 0 /\ (r.rc # 0 \/ m.out # r.out)
      [] x = "died" -> m.rc < 0 /\ m.rc # -6
      [] OTHER -> ~m.kept}
=============================================================================
