---------------------------- MODULE SurfaceTrace ----------------------------
(* C05: the data of each (face, level, depth) is its own image, row by row.   *)
(* Parameters: f, t, dim, w, h, depth (extent of level 0), mips, faces.       *)
EXTENDS Surfaces, TraceFrame

Setup == More /\ ~skip /\ E.op \in {"tinit", "tset", "tconv"} /\ Judge(Normal /\ E.ret, "setup failed")
DepthAt(m) == IF P.dim = 2 THEN Extent(P.depth, m) ELSE P.depth
Exists(f, m, d) == f < P.faces /\ m < P.mips /\ d < DepthAt(m)

Verdict ==
    LET w == Extent(P.w, E.m) h == IF P.dim = 0 THEN 1 ELSE Extent(P.h, E.m) n == Fmt(P.f).bytes IN
    IF ~Exists(E.f, E.m, E.d) THEN (IF Len(E.b) = 0 THEN <<TRUE, "">> ELSE <<FALSE, "data for a surface that does not exist">>)
    ELSE IF Len(E.b) # w*h*n THEN <<FALSE, [surface |-> <<E.f, E.m, E.d>>, size |-> Len(E.b), expected |-> w*h*n]>>
    ELSE LET wrong == WrongPixels(P.f, P.t, Offset(E.f, E.m, E.d), w, h, E.b, 0, w*n)
         IN  IF wrong = {} THEN <<TRUE, "">>
             ELSE <<FALSE, [surface |-> <<E.f, E.m, E.d>>, of |-> Fmt(P.f).name, type |-> P.t, extent |-> <<w, h>>, wrong |-> Cardinality(wrong), pixel |-> CHOOSE p \in wrong : TRUE]>>
Data == IsOp("tdata") /\ LET v == IF Normal THEN Verdict ELSE <<FALSE, "exception">> IN Judge(v[1], v[2])
\* large surfaces of images that repeat every 13 x 11 pixels: the first tile, and that the rest repeats it
VerdictTiled ==
    LET w == Extent(P.w, E.m) h == IF P.dim = 0 THEN 1 ELSE Extent(P.h, E.m) n == Fmt(P.f).bytes tw == Min2(w, 13) th == Min2(h, 11) IN
    IF ~Exists(E.f, E.m, E.d) \/ E.size # w*h*n THEN <<FALSE, [surface |-> <<E.f, E.m, E.d>>, size |-> E.size, expected |-> w*h*n]>>
    ELSE LET wrong == WrongPixels(P.f, P.t, Offset(E.f, E.m, E.d), tw, th, E.b, 0, tw*n)
         IN  IF wrong = {} /\ E.count = 0 THEN <<TRUE, "">>
             ELSE <<FALSE, [surface |-> <<E.f, E.m, E.d>>, of |-> Fmt(P.f).name, type |-> P.t, extent |-> <<w, h>>, wrong |-> Cardinality(wrong), notrepeated |-> E.count, first |-> E.diff]>>
Tiled == IsOp("tper") /\ LET v == IF Normal THEN VerdictTiled ELSE <<FALSE, "exception">> IN Judge(v[1], v[2])
Other == More /\ ~skip /\ E.op \notin {"case", "tinit", "tset", "tconv", "tdata", "tper"} /\ Reject("unexpected event")

Init == FrameInit
Next == NewCase \/ SkipStep \/ Setup \/ Data \/ Tiled \/ Other
Spec == Init /\ [][Next]_frame
=============================================================================
