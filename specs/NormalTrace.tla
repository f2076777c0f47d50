----------------------------- MODULE NormalTrace -----------------------------
(* Recorded normal maps.                                                      *)
EXTENDS NormalMap, TraceFrame

VARIABLES src,    \* the source image's pixels
          todo    \* a map that has not been seen: <<options, format>>
vars == <<frame, src, todo>>
\* parameters: fmt, w, h, cs of the source, o: options, scale, dst: format of the map
Size(st, f) == st.valid /\ st.fmt = f /\ st.w = P.w /\ st.h = P.h
Grid == (1..P.w) \X (1..P.h)
Dump == /\ IsOp("idump") /\ Normal
        /\ CASE src = <<>> -> src' = E.px /\ todo' = todo /\ Judge(Size(E.st, P.fmt) /\ E.i = 0, "the image")
             [] E.i = 0 -> UNCHANGED <<src, todo>> /\ Judge(E.px = src /\ Size(E.st, P.fmt) /\ E.st.cs = P.cs, "the source changed")
             [] OTHER ->
                /\ UNCHANGED src /\ todo' = FALSE
                /\ IF ~todo \/ ~Size(E.st, P.dst) \/ Len(E.px) # P.h THEN Reject([state |-> E.st])
                   ELSE LET hf == [y \in 1..P.h |-> [x \in 1..P.w |-> src[y][x][1]]]
                            wrong == {p \in Grid : ~NormalOK(P.dst, hf, P.o, P.scale, p[1], p[2], E.px[p[2]][p[1]])}
                        IN IF wrong = {} THEN Accept
                           ELSE LET p == CHOOSE p \in wrong : TRUE IN
                                Reject([at |-> p, expected |-> NormalAt(hf, P.o, P.scale, p[1], p[2]), is |-> E.px[p[2]][p[1]], pixels |-> Cardinality(wrong)])
Make == /\ IsOp("inormal") /\ Normal /\ src # <<>> /\ P.dst # 0 /\ todo' = TRUE /\ UNCHANGED src /\ Judge(Size(E.st, P.dst), [state |-> E.st])
\* no source or no format: no map
Nothing == /\ IsOp("inormal") /\ Normal /\ (src = <<>> \/ P.dst = 0) /\ UNCHANGED <<src, todo>> /\ Judge(~E.st.valid, "a map of nothing")
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "idump", "inormal"} \/ (E.op # "case" /\ ~Normal))
         /\ UNCHANGED <<src, todo>> /\ Reject("unexpected event")

Init == FrameInit /\ src = <<>> /\ todo = FALSE
Next == \/ NewCase /\ src' = <<>> /\ todo' = FALSE
        \/ SkipStep /\ UNCHANGED <<src, todo>>
        \/ Dump \/ Make \/ Nothing \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
