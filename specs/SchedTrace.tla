----------------------------- MODULE SchedTrace -----------------------------
(* What the threads of a conversion did under a given schedule (Pool.tla).   *)
(* Vector clocks, as in Pool, order the recorded accesses: creation and      *)
(* joining of threads, atomic operations and locks carry the order from one  *)
(* thread to another.  Accesses of different threads to the same memory, one *)
(* of them a write, must be ordered.  When conversion returns all threads    *)
(* have finished and the surfaces are those of a conversion without threads. *)
EXTENDS TraceFrame, FiniteSets

VARIABLES clock,    \* thread number + 1 -> vector clock (a sequence)
          sync,     \* synchronisation object + 1 -> vector clock
          acc,      \* accesses so far: thread, time, range, write
          live      \* threads that run

tvars == <<clock, sync, acc, live>>

At(c, t) == IF t + 1 <= Len(c) THEN c[t + 1] ELSE 0
Bigger(a, b) == IF a < b THEN b ELSE a
Longer(a, b) == Bigger(Len(a), Len(b))
Joined(a, b) == [i \in 1 .. Longer(a, b) |-> Bigger(At(a, i - 1), At(b, i - 1))]
Tick(c, t) == [i \in 1 .. Bigger(Len(c), t + 1) |-> At(c, i - 1) + (IF i = t + 1 THEN 1 ELSE 0)]
Of(s, t) == IF t + 1 <= Len(s) THEN s[t + 1] ELSE <<>>
With(s, t, v) == [i \in 1 .. Bigger(Len(s), t + 1) |-> IF i = t + 1 THEN v ELSE Of(s, i - 1)]

Start == /\ clock' = <<Tick(<<>>, 0)>> /\ sync' = <<>> /\ acc' = {} /\ live' = {}

Overlaps(a, e) == a.lo < e.hi /\ a.hi > e.lo
Conflicts(e) == {a \in acc : a.t # e.t /\ Overlaps(a, e) /\ (a.w \/ e.op = "w") /\ a.c > At(Of(clock, e.t), a.t)}

\* an access that is ordered before the new one and covered by it needs no memory any more
Keep(e) == {a \in acc : ~(e.op = "w" /\ a.lo >= e.lo /\ a.hi <= e.hi)}
Access == /\ IsOp("r") \/ IsOp("w")
          /\ LET conf == Conflicts(E) IN
               /\ Judge(conf = {}, [race |-> E, with |-> IF conf = {} THEN 0 ELSE CHOOSE a \in conf : TRUE])
               /\ acc' = Keep(E) \union {[t |-> E.t, c |-> At(Of(clock, E.t), E.t), lo |-> E.lo, hi |-> E.hi, w |-> E.op = "w"]}
          /\ UNCHANGED <<clock, sync, live>>

\* memory that is given out anew has no history
Rest(a, lo, hi) == {x \in {[a EXCEPT !.hi = IF hi <= a.lo THEN a.hi ELSE IF lo < a.hi THEN lo ELSE a.hi],
                           [a EXCEPT !.lo = IF lo >= a.hi THEN a.lo ELSE IF hi > a.lo THEN hi ELSE a.lo]} : x.lo < x.hi}
Fresh == /\ IsOp("m") /\ Accept
         /\ acc' = UNION {IF Overlaps(a, E) THEN Rest(a, E.lo, E.hi) ELSE {a} : a \in acc}
         /\ UNCHANGED <<clock, sync, live>>

Create == /\ IsOp("c") /\ Accept
          /\ clock' = With(With(clock, E.u, Tick(Joined(Of(clock, E.u), Of(clock, E.t)), E.u)), E.t, Tick(Of(clock, E.t), E.t))
          /\ live' = live \union {E.u}
          /\ UNCHANGED <<sync, acc>>

Exit == /\ IsOp("x") /\ Accept
        /\ live' = live \ {E.t}
        /\ UNCHANGED <<clock, sync, acc>>

JoinThread == /\ IsOp("j")
              /\ Judge(E.u \notin live, [joined |-> E.u])
              /\ clock' = With(clock, E.t, Tick(Joined(Of(clock, E.t), Of(clock, E.u)), E.t))
              /\ UNCHANGED <<sync, acc, live>>

Acquire == /\ IsOp("a") /\ Accept
           /\ clock' = With(clock, E.t, Joined(Of(clock, E.t), Of(sync, E.a)))
           /\ UNCHANGED <<sync, acc, live>>

Release == /\ IsOp("l") /\ Accept
           /\ sync' = With(sync, E.a, Joined(Of(sync, E.a), Of(clock, E.t)))
           /\ clock' = With(clock, E.t, Tick(Of(clock, E.t), E.t))
           /\ UNCHANGED <<acc, live>>

Both == /\ IsOp("b") /\ Accept
        /\ LET c == Joined(Of(clock, E.t), Of(sync, E.a)) IN
             /\ sync' = With(sync, E.a, c)
             /\ clock' = With(clock, E.t, Tick(c, E.t))
        /\ UNCHANGED <<acc, live>>

Begin == /\ IsOp("begin") /\ Accept /\ Start

\* every surface is there and has the bytes it has without threads
End == /\ IsOp("end")
       /\ Judge(/\ E.live = 0
                /\ E.ret = E.refret
                /\ E.got = E.ref
                /\ (E.ctl => live = {}), [ret |-> E.ret, refret |-> E.refret, live |-> E.live,
                    differ |-> {i \in 1 .. Len(E.ref) : i > Len(E.got) \/ (i <= Len(E.got) /\ E.got[i] # E.ref[i])}])
       /\ UNCHANGED tvars

\* threads with objects of their own (Concurrent.tla): every one of their operations gave what it gives when done alone
Together == /\ IsOp("cend")
            /\ Judge(/\ E.got = E.ref
                     /\ (E.ctl => live = {}), [differ |-> {i \in 1 .. Len(E.ref) : E.got[i] # E.ref[i]},
                        first |-> [i \in 1 .. Len(E.ref) |-> {k \in 1 .. Len(E.ref[i]) : E.got[i][k] # E.ref[i][k]}]])
            /\ UNCHANGED tvars

\* conversions with several numbers of threads that run freely: h and ok for each of them
Free == /\ IsOp("tfree")
        /\ Judge(\A i \in 1 .. Len(E.h) : E.h[i] = E.h[1] /\ E.ok[i] = E.ok[1], [h |-> E.h, ok |-> E.ok])
        /\ UNCHANGED tvars

\* the commands that make the texture are judged elsewhere
Setup == /\ More /\ ~skip /\ E.op \in {"tinit", "iq", "tset", "tgen"} /\ Accept
         /\ UNCHANGED tvars

Other == /\ More /\ ~skip /\ E.op \in {"CRASH", "HANG"}
         /\ Reject("crash or hang")
         /\ UNCHANGED tvars

Init == FrameInit /\ clock = <<>> /\ sync = <<>> /\ acc = {} /\ live = {}
Next == \/ NewCase /\ UNCHANGED tvars
        \/ SkipStep /\ UNCHANGED tvars
        \/ Begin \/ Access \/ Fresh \/ Create \/ Exit \/ JoinThread \/ Acquire \/ Release \/ Both \/ End \/ Together \/ Free \/ Setup \/ Other
Spec == Init /\ [][Next]_<<frame, tvars>>
=============================================================================
