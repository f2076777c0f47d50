------------------------------ MODULE DdsTrace ------------------------------
(* Files the real code saved, read by DdsFile.tla and compared with the      *)
(* texture's parameters and its surfaces' data.                               *)
EXTENDS DdsFile, TraceFrame

VARIABLE data     \* <<face, level, depth>> -> bytes
vars == <<frame, data>>

Setup == More /\ ~skip /\ E.op \in {"tinit", "tset", "tsetall", "tconv"} /\ Judge(Normal /\ E.ret, "setup failed") /\ UNCHANGED data
Data == IsOp("tdata") /\ Accept /\ data' = (<<E.f, E.m, E.d>> :> E.b) @@ data
Datas == IsOp("tdatas") /\ Accept /\ data' = Gathered(E.s, 1, Len(E.s))
Save ==
    /\ IsOp("tsave")
    /\ UNCHANGED data
    /\ IF ~Normal \/ E.res # 0 THEN Reject([result |-> IF Normal THEN E.res ELSE "exception"])
       ELSE LET w == DdsWrong(E.b, P, data) IN Judge(w = {}, [wrong |-> w, of |-> Fmt(P.f).name, header |-> SubSeq(E.b, 1, 152)])
Other == More /\ ~skip /\ E.op \notin {"case", "tinit", "tset", "tconv", "tsetall", "tdata", "tdatas", "tsave"} /\ Reject("unexpected event") /\ UNCHANGED data

Init == FrameInit /\ data = <<>>
Next == (NewCase /\ data' = <<>>) \/ (SkipStep /\ UNCHANGED data) \/ Setup \/ Data \/ Datas \/ Save \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
