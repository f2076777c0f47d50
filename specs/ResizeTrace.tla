----------------------------- MODULE ResizeTrace -----------------------------
(* Recorded resizes.  Every result is judged on its own; results of sources   *)
(* that mirror each other must mirror each other.                             *)
EXTENDS Resize, TraceFrame

VARIABLES slots   \* slot -> [w, h, px, of: source slot or -1, filter] ; px is <<>> before it has been seen
vars == <<frame, slots>>
\* parameters: fmt, cs, g: how the image in slot 1 follows from the one in slot 0: "none", "x", "y", "t" (swapped axes)
Has(i) == i \in DOMAIN slots
StateOK(w, h) == E.st.valid /\ E.st.fmt = P.fmt /\ E.st.cs = P.cs /\ E.st.w = w /\ E.st.h = h
SizeOK(px, w, h) == Len(px) = h /\ \A y \in 1..h : Len(px[y]) = w

Plane(px, c) == [y \in 1..Len(px) |-> [x \in 1..Len(px[1]) |-> Light(P.cs, c, px[y][x][c])]]
Stored4 == 1..Channels(P.fmt)
Turned(g, px) == LET h == Len(px) w == Len(px[1]) IN
    CASE g = "x" -> [y \in 1..h |-> [x \in 1..w |-> px[y][w + 1 - x]]]
      [] g = "y" -> [y \in 1..h |-> [x \in 1..w |-> px[h + 1 - y][x]]]
      [] OTHER -> [y \in 1..w |-> [x \in 1..h |-> px[x][y]]]
Apart(a, b, c) == Abs(Light(P.cs, c, a[c]) - Light(P.cs, c, b[c]))
\* results may differ by their rounding
Alike(s, a, b) == \A y \in 1..Len(a), x \in 1..Len(a[1]) :
    \/ Edge(s.filter, slots[s.of].w, s.w, x - 1) \/ Edge(s.filter, slots[s.of].h, s.h, y - 1)
    \/ \A c \in Stored4 : Apart(a[y][x], b[y][x], c) <= 2*Tol(P.fmt, P.cs, c)

JudgePixels(s, px) ==
    LET src == slots[s.of] IN
    IF <<src.w, src.h>> = <<s.w, s.h>> THEN (IF px = src.px THEN {} ELSE {<<0, 0, 0>>})
    ELSE LET planes == [c \in Stored4 |-> Plane(src.px, c)] IN
         {t \in (1..s.w) \X (1..s.h) \X Stored4 : ~ChannelOK(P.fmt, P.cs, s.filter, planes[t[3]], s.w, s.h, t[3], t[1] - 1, t[2] - 1, px[t[2]][t[1]][t[3]])}
Dump == /\ IsOp("idump") /\ Normal
        /\ IF ~Has(E.i) THEN
              /\ slots' = (E.i :> [w |-> E.st.w, h |-> E.st.h, px |-> E.px, of |-> -1, filter |-> -1]) @@ slots
              /\ Judge(E.st.valid /\ E.st.fmt = P.fmt /\ (E.i = 1 => Has(0) /\ E.px = Turned(P.g, slots[0].px)), "the image")
           ELSE LET s == slots[E.i] IN
                IF ~StateOK(s.w, s.h) \/ ~SizeOK(E.px, s.w, s.h) THEN UNCHANGED slots /\ Reject([state |-> E.st])
                ELSE IF s.px # <<>> THEN UNCHANGED slots /\ Judge(E.px = s.px, "the source changed")
                ELSE LET wrong == JudgePixels(s, E.px)
                         \* the same resize of the other image
                         \* (values cut off between the two passes make the order of the axes visible)
                         twins == IF P.g = "t" /\ s.filter \in {2, 3} THEN {} ELSE {k \in DOMAIN slots : slots[k].of = 1 - s.of /\ slots[k].of >= 0 /\ slots[k].filter = s.filter /\ slots[k].px # <<>>
                                      /\ <<slots[k].w, slots[k].h>> = IF P.g = "t" THEN <<s.h, s.w>> ELSE <<s.w, s.h>>}
                         unlike == {k \in twins : ~Alike(s, Turned(P.g, slots[k].px), E.px)}
                     IN /\ slots' = [slots EXCEPT ![E.i].px = E.px]
                        /\ IF wrong # {} THEN LET t == CHOOSE t \in wrong : TRUE IN
                                            Reject([at |-> t, values |-> Cardinality(wrong), is |-> IF t[1] > 0 THEN E.px[t[2]][t[1]] ELSE <<>>,
                                                    expected |-> IF t[1] > 0 /\ s.filter < 2 THEN Mean2(s.filter, Plane(slots[s.of].px, t[3]), s.w, s.h, t[1] - 1, t[2] - 1) ELSE "?"])
                           ELSE Judge(unlike = {}, [notmirrored |-> unlike])
Do == /\ IsOp("iresize") /\ Normal
      /\ LET w == E.a[3] \div P.nx h == E.a[4] \div P.ny filter == E.a[5]
             ok == Has(E.src) /\ slots[E.src].px # <<>>
             src == slots[E.src]
         IN IF ok /\ Succeeds(P.fmt, filter, src.w, src.h, w, h)
            THEN /\ slots' = (E.i :> [w |-> w, h |-> h, px |-> <<>>, of |-> E.src, filter |-> filter]) @@ slots
                 /\ Judge(StateOK(w, h), [state |-> E.st])
            ELSE UNCHANGED slots /\ Judge(~E.st.valid, "resize should have failed")
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "idump", "iresize"} \/ (E.op # "case" /\ ~Normal)) /\ UNCHANGED slots /\ Reject("unexpected event")

Init == FrameInit /\ slots = <<>>
Next == \/ NewCase /\ slots' = <<>>
        \/ SkipStep /\ UNCHANGED slots
        \/ Dump \/ Do \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
