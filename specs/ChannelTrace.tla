---------------------------- MODULE ChannelTrace ----------------------------
(* Recorded channel operations; every operation is followed by a dump that   *)
(* is judged pixel by pixel against the dump before it.                      *)
EXTENDS ChannelOps, TraceFrame

VARIABLES img,    \* [w, h, cs, px] as last seen
          todo    \* the operation whose effect has not been seen
vars == <<frame, img, todo>>
None == [op |-> "none"]

\* parameters: fmt, w, h, cs
StateOK(cs) == E.st.valid /\ E.st.fmt = P.fmt /\ E.st.w = P.w /\ E.st.h = P.h /\ E.st.cs = cs
SizeOK(px) == Len(px) = P.h /\ \A y \in 1..P.h : Len(px[y]) = P.w /\ \A x \in 1..P.w : Len(px[y][x]) = 4
CsAfter == IF todo.op = "ics" THEN todo.a[2] ELSE img.cs

PixelOK(px, out) ==
    /\ out = Full(P.fmt, out)
    /\ CASE todo.op = "iswz" -> SwizzleOK(P.fmt, px, <<todo.a[2], todo.a[3], todo.a[4], todo.a[5]>>, out)
         [] todo.op = "igray" -> GrayOK(P.fmt, img.cs, px, out)
         [] todo.op = "ipremul" -> PremultiplyOK(P.fmt, img.cs, px, out)
         [] todo.op = "ics" -> ColourSpaceOK(P.fmt, img.cs, todo.a[2], px, out)
         [] OTHER -> FALSE

Bad == {<<x, y>> \in (1..P.w) \X (1..P.h) : ~PixelOK(img.px[y][x], E.px[y][x])}
Dump == /\ IsOp("idump") /\ Normal /\ todo' = None
        /\ IF img = <<>>
           THEN /\ img' = [cs |-> P.cs, px |-> E.px] /\ Judge(StateOK(P.cs) /\ SizeOK(E.px), "the image")
           ELSE /\ img' = [cs |-> CsAfter, px |-> E.px]
                /\ IF ~StateOK(CsAfter) \/ ~SizeOK(E.px) THEN Reject([state |-> E.st])
                   ELSE LET b == Bad IN
                        IF b = {} THEN Accept
                        ELSE LET p == CHOOSE p \in b : TRUE IN
                             Reject([after |-> todo, at |-> p, cs |-> img.cs, was |-> img.px[p[2]][p[1]], is |-> E.px[p[2]][p[1]], pixels |-> Cardinality(b)])
Operation == /\ More /\ ~skip /\ E.op \in {"iswz", "igray", "ipremul", "ics"} /\ Normal /\ img # <<>>
             /\ todo' = [op |-> E.op, a |-> E.a] /\ UNCHANGED img /\ Judge(E.ret, "the operation failed")
\* operations on an image that is not valid fail
Nothing == /\ More /\ ~skip /\ E.op \in {"iswz", "igray", "ipremul", "ics"} /\ Normal /\ img = <<>>
           /\ UNCHANGED <<img, todo>> /\ Judge(~E.ret /\ ~E.st.valid, "operation on an invalid image succeeded")
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "idump", "iswz", "igray", "ipremul", "ics"} \/ (E.op # "case" /\ ~Normal))
         /\ UNCHANGED <<img, todo>> /\ Reject("unexpected event")

Init == FrameInit /\ img = <<>> /\ todo = None
Next == \/ NewCase /\ img' = <<>> /\ todo' = None
        \/ SkipStep /\ UNCHANGED <<img, todo>>
        \/ Dump \/ Operation \/ Nothing \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
