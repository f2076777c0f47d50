---------------------------- MODULE ConvertTrace ----------------------------
(* Recorded conversions between image formats.                               *)
EXTENDS ImageConvert, TraceFrame

VARIABLES slots,   \* slot -> [fmt, px] with px as seen, or [fmt, from, gray] before it has been seen
          raw      \* slot -> rows of bytes (integer formats)
vars == <<frame, slots, raw>>
Has(i) == i \in DOMAIN slots
Seen(i) == Has(i) /\ "px" \in DOMAIN slots[i]

\* parameters: w, h, cs
StateOK(f) == E.st.valid /\ E.st.fmt = f /\ E.st.cs = P.cs /\ E.st.w = P.w /\ E.st.h = P.h /\ E.st.bpp = PixelBits[f]
Grid == (1..P.w) \X (1..P.h)
SizeOK(px) == Len(px) = P.h /\ \A y \in 1..P.h : Len(px[y]) = P.w

Dump == /\ IsOp("idump") /\ Normal /\ UNCHANGED raw
        /\ IF ~Has(E.i) THEN /\ slots' = (E.i :> [fmt |-> E.st.fmt, px |-> E.px, origin |-> <<>>]) @@ slots /\ Judge(E.st.fmt = P.fmt /\ StateOK(P.fmt) /\ SizeOK(E.px), "the image")
           ELSE LET s == slots[E.i] IN
                IF ~StateOK(s.fmt) \/ ~SizeOK(E.px) THEN UNCHANGED slots /\ Reject([state |-> E.st])
                ELSE IF Seen(E.i) THEN UNCHANGED slots /\ Judge(E.px = s.px, "the source changed")
                ELSE LET src == s.from
                         wrong == {p \in Grid : ~ConvertOK(src.fmt, s.fmt, P.cs, s.gray, src.px[p[2]][p[1]], E.px[p[2]][p[1]])}
                         \* there and back again
                         lost == src.origin # <<>> /\ src.origin.fmt = s.fmt /\ src.origin.px # E.px
                     IN /\ slots' = (E.i :> [fmt |-> s.fmt, px |-> E.px, origin |-> IF Wider(src.fmt, s.fmt) /\ ~(s.gray /\ Kind(src.fmt) \in {"int", "uint"}) THEN [fmt |-> src.fmt, px |-> src.px] ELSE <<>>]) @@ slots
                        /\ IF wrong # {} THEN LET p == CHOOSE p \in wrong : TRUE IN
                                            Reject([from |-> src.fmt, to |-> s.fmt, gray |-> s.gray, at |-> p, was |-> src.px[p[2]][p[1]], is |-> E.px[p[2]][p[1]], pixels |-> Cardinality(wrong)])
                           ELSE Judge(~lost, "converting to a wider format and back changed the image")
Convert == /\ IsOp("iconv") /\ Normal /\ Seen(E.src) /\ UNCHANGED raw
           /\ slots' = (E.i :> [fmt |-> E.to, from |-> slots[E.src], gray |-> E.gray]) @@ slots
           /\ Judge(StateOK(E.to), [state |-> E.st])
\* integers exactly
Raw == /\ IsOp("iraw") /\ Normal /\ UNCHANGED slots
       /\ raw' = (E.i :> [fmt |-> E.st.fmt, rows |-> E.rows]) @@ raw
       /\ IF ~Has(E.i) \/ Seen(E.i) THEN Accept
          ELSE LET s == slots[E.i] f == raw[P.src] ns == PixelBits[f.fmt] \div 8 nd == PixelBits[s.fmt] \div 8
                   wrong == {p \in Grid : ~IntegersOK(f.fmt, s.fmt, SubSeq(f.rows[p[2]], (p[1] - 1)*ns + 1, p[1]*ns), SubSeq(E.rows[p[2]], (p[1] - 1)*nd + 1, p[1]*nd))}
               IN Judge(wrong = {}, [integers |-> wrong, to |-> s.fmt])
\* an image that is not valid, or a format that is not
Nothing == /\ IsOp("iconv") /\ Normal /\ (slots = <<>> \/ E.to = 0) /\ UNCHANGED <<slots, raw>> /\ Judge(~E.st.valid, "conversion gave an image")
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "idump", "iconv", "iraw"} \/ (E.op # "case" /\ ~Normal) \/ (E.op = "iconv" /\ slots # <<>> /\ ~Seen(E.src)))
         /\ UNCHANGED <<slots, raw>> /\ Reject("unexpected event")

Init == FrameInit /\ slots = <<>> /\ raw = <<>>
Next == \/ NewCase /\ slots' = <<>> /\ raw' = <<>>
        \/ SkipStep /\ UNCHANGED <<slots, raw>>
        \/ Dump \/ (slots # <<>> /\ More /\ (E.op = "iconv" => E.to # 0) /\ Convert) \/ Raw \/ Nothing \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
